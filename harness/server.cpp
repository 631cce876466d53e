// Drives OpenCompGraph's public C++ API from commands on stdin; one reply line per command line.
//
// Strings travel hex-encoded, floats as C hexadecimal floats / decimal bit patterns, pixel data as
// hex bytes.  The process holds numbered graphs, nodes, caches and streams; 'reset' drops them all.
// A reply starts with "ok" or "err"; a crash of the code under test ends the process, which the
// client sees as end of file.
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <cerrno>
#include <csignal>
#include <algorithm>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <OpenImageIO/imageio.h>
#include <opencompgraph.h>

namespace ocg = open_comp_graph;
extern "C" const char *ocgx_call(const char *, size_t, size_t *) __attribute__((weak));

namespace oi = open_comp_graph::internal;

static std::map<int, std::unique_ptr<ocg::Graph>> G;
static std::map<int, ocg::Node> N;
static std::map<int, std::shared_ptr<ocg::Cache>> C;
static std::map<int, std::unique_ptr<ocg::StreamData>> S;
static std::map<std::string, std::pair<bool, std::string>> ENV0;  // variables changed by 'setenv': what they were

static std::string unhex(const std::string &h) {
    if (h == "-") return "";
    std::string r;
    r.reserve(h.size() / 2);
    auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char) (v(h[i]) * 16 + v(h[i + 1])));
    return r;
}
static std::string tohex(const void *p, size_t n) {
    static const char *d = "0123456789abcdef";
    if (n == 0) return "-";
    const unsigned char *b = (const unsigned char *) p;
    std::string r(n * 2, '0');
    for (size_t i = 0; i < n; ++i) { r[2 * i] = d[b[i] >> 4]; r[2 * i + 1] = d[b[i] & 15]; }
    return r;
}
static std::string tohex(const std::string &s) { return tohex(s.data(), s.size()); }

template <class T> static std::vector<T> unpack(const std::string &h) {
    std::string b = unhex(h);
    std::vector<T> v(b.size() / sizeof(T));
    std::memcpy(v.data(), b.data(), v.size() * sizeof(T));
    return v;
}
template <class T> static T unpack1(const std::string &h) { auto v = unpack<T>(h); return v.empty() ? T() : v[0]; }
static rust::Str rstr(const std::string &s) { return rust::Str(s.data(), s.size()); }

static std::string win(const ocg::BBox2Di &b) {
    std::ostringstream o;
    o << b.min_x << " " << b.min_y << " " << b.max_x << " " << b.max_y;
    return o.str();
}
static std::string spec_str(const oi::ImageSpec &sp) {
    std::ostringstream o;
    o << tohex(std::string(sp.color_space)) << " " << tohex(&sp.gamma, 4) << " " << tohex(&sp.pixel_aspect, 4) << " "
      << (int) sp.orientation << " " << (int) sp.unassociated_alpha << " " << sp.dither;
    return o.str();
}
static std::string image_str(const oi::ImageShared &img) {
    std::ostringstream o;
    const auto &pb = *img.pixel_block;
    o << pb.width() << " " << pb.height() << " " << pb.num_channels() << " " << (int) pb.data_type() << " "
      << win(img.display_window) << " " << win(img.data_window) << " " << spec_str(img.spec) << " ";
    if (pb.data_type() == ocg::DataType::kFloat32) {
        auto s = pb.as_slice_f32();
        o << tohex(s.data(), s.length() * 4);
    } else {
        o << "?";
    }
    return o.str();
}

static OIIO::TypeDesc dtype(const std::string &s) {
    if (s == "f32") return OIIO::TypeDesc::FLOAT;
    if (s == "half") return OIIO::TypeDesc::HALF;
    if (s == "u8") return OIIO::TypeDesc::UINT8;
    if (s == "u16") return OIIO::TypeDesc::UINT16;
    if (s == "u32") return OIIO::TypeDesc::UINT32;
    if (s == "f64") return OIIO::TypeDesc::DOUBLE;
    return OIIO::TypeDesc::UNKNOWN;
}

// Nodes that are no longer (or never were) in a graph may still be named by a client; that is the point.
static std::string handle(const std::vector<std::string> &a) {
    std::ostringstream o;
    auto I = [&](size_t i) { return std::stoi(a.at(i)); };
    auto U = [&](size_t i) { return (uint64_t) std::stoull(a.at(i)); };
    const std::string &c = a.at(0);
    if (c == "ping") return "ok";
    if (c == "reset") {
        S.clear(); G.clear(); C.clear(); N.clear();
        for (auto &e : ENV0) {
            if (e.second.first) setenv(e.first.c_str(), e.second.second.c_str(), 1); else unsetenv(e.first.c_str());
        }
        ENV0.clear();
        return "ok";
    }
    if (c == "graph") { G[I(1)].reset(new ocg::Graph()); return "ok"; }
    if (c == "dropgraph") { G.erase(I(1)); return "ok"; }
    if (c == "cache") {
        C[I(1)] = std::make_shared<ocg::Cache>();
        if (a.size() > 2) C[I(1)]->set_capacity_bytes((size_t) U(2));
        return "ok";
    }
    if (c == "cinfo") {
        auto &k = C.at(I(1));
        o << "ok " << k->count() << " " << k->used_bytes() << " " << k->capacity_bytes() << " " << tohex(k->data_debug_string());
        return o.str();
    }
    if (c == "ccap") { C.at(I(1))->set_capacity_bytes((size_t) U(2)); return "ok"; }
    if (c == "node") {  // node g n type [id <u64> | name <hex> | rand]
        auto t = (ocg::NodeType) I(3);
        ocg::Node n;
        if (a.size() > 4 && a[4] == "id") n = G.at(I(1))->create_node(t, U(5));
        else if (a.size() > 4 && a[4] == "name") n = G.at(I(1))->create_node(t, unhex(a.at(5)).c_str());
        else n = G.at(I(1))->create_node(t);
        N[I(2)] = n;
        o << "ok " << n.get_id() << " " << (int) n.get_node_type();
        return o.str();
    }
    if (c == "handle") {  // handle n type id: a Node value for an id, without creating anything
        N[I(1)] = ocg::Node((ocg::NodeType) I(2), (size_t) U(3));
        return "ok";
    }
    if (c == "del") { o << "ok " << (int) G.at(I(1))->delete_node(N.at(I(2))); return o.str(); }
    if (c == "delid") { o << "ok " << (int) G.at(I(1))->delete_node(U(2)); return o.str(); }
    if (c == "connect") { G.at(I(1))->connect(N.at(I(2)), N.at(I(3)), (uint8_t) I(4)); return "ok"; }
    if (c == "disc") { G.at(I(1))->disconnect_input(N.at(I(2)), (uint8_t) I(3)); return "ok"; }
    if (c == "seti" || c == "setf" || c == "sets" || c == "geti" || c == "getf" || c == "gets" || c == "attr") {
        auto &g = *G.at(I(1));
        auto &n = N.at(I(2));
        std::string name = unhex(a.at(3));
        if (c == "seti") { g.set_node_attr_i32(n, rstr(name), (int32_t) std::stoll(a.at(4))); return "ok"; }
        if (c == "setf") { g.set_node_attr_f32(n, rstr(name), unpack1<float>(a.at(4))); return "ok"; }
        if (c == "sets") { std::string v = unhex(a.at(4)); g.set_node_attr_str(n, rstr(name), rstr(v)); return "ok"; }
        if (c == "geti") { o << "ok " << g.get_node_attr_i32(n, rstr(name)); return o.str(); }
        if (c == "getf") { float f = g.get_node_attr_f32(n, rstr(name)); return "ok " + tohex(&f, 4); }
        if (c == "gets") { auto v = g.get_node_attr_str(n, rstr(name)); return "ok " + tohex(v.data(), v.length()); }
        o << "ok " << (int) g.node_attr_exists(n, rstr(name));
        return o.str();
    }
    if (c == "x") {         // x <call to ocgx.rs>, words joined by spaces
        if (!ocgx_call) return "ok none";
        std::string line;
        for (size_t i = 1; i < a.size(); ++i) line += (i > 1 ? " " : "") + a[i];
        size_t n = 0;
        const char *r = ocgx_call(line.data(), line.size(), &n);
        return "ok " + std::string(r, n);
    }
    if (c == "exists") { o << "ok " << (int) G.at(I(1))->node_exists(N.at(I(2))); return o.str(); }
    if (c == "status") { o << "ok " << (int) G.at(I(1))->node_status(N.at(I(2))); return o.str(); }
    if (c == "gstate") {
        o << "ok " << (int) G.at(I(1))->state() << " " << (int) G.at(I(1))->execute_status();
        return o.str();
    }
    if (c == "debugstr") return "ok " + tohex(G.at(I(1))->data_debug_string());
    if (c == "exec") {  // exec g n c <i32 frames hex>
        auto f = unpack<int32_t>(a.at(4));
        o << "ok " << (int) G.at(I(1))->execute(N.at(I(2)), f, C.at(I(3)));
        return o.str();
    }
    if (c == "execd") {
        auto f = unpack<double>(a.at(4));
        o << "ok " << (int) G.at(I(1))->execute(N.at(I(2)), f, C.at(I(3)));
        return o.str();
    }
    if (c == "out") { S[I(2)].reset(new ocg::StreamData(G.at(I(1))->output_stream())); return "ok"; }
    if (c == "newstream") { S[I(1)].reset(new ocg::StreamData()); return "ok"; }
    if (c == "sinfo") {
        auto &s = *S.at(I(1));
        auto b = s.pixel_buffer();
        auto m = s.color_matrix();
        float mm[16] = {m.m00, m.m01, m.m02, m.m03, m.m10, m.m11, m.m12, m.m13,
                        m.m20, m.m21, m.m22, m.m23, m.m30, m.m31, m.m32, m.m33};
        o << "ok " << (s.state_id() == (int) s.state() ? (int) s.state() : 1000) << " " << s.hash() << " " << win(s.display_window()) << " " << win(s.data_window())
          << " " << s.deformers_len() << " " << s.color_ops_len() << " " << s.color_ops_hash() << " "
          << s.pixel_width() << " " << s.pixel_height() << " " << s.pixel_num_channels() << " "
          << (int) s.pixel_data_type() << " " << b.length() << " " << spec_str(s.clone_image_spec()) << " " << tohex(mm, 64);
        return o.str();
    }
    if (c == "pix") {
        auto &s = *S.at(I(1));
        auto b = s.pixel_buffer();
        return "ok " + tohex(b.data(), b.length());
    }
    if (c == "deform") {  // deform s <4 f32 display> <4 f32 data> <f32 buffer>
        auto d = unpack<float>(a.at(2)), w = unpack<float>(a.at(3)), buf = unpack<float>(a.at(4));
        rust::Slice<float> sl(buf.data(), buf.size());
        S.at(I(1))->apply_deformers(sl, ocg::BBox2Df{d[0], d[1], d[2], d[3]}, ocg::BBox2Df{w[0], w[1], w[2], w[3]});
        return "ok " + tohex(buf.data(), buf.size() * 4);
    }
    if (c == "colorops") {  // colorops s nch <f32 buffer>
        auto buf = unpack<float>(a.at(3));
        rust::Slice<float> sl(buf.data(), buf.size());
        auto box = S.at(I(1))->get_box();
        box->apply_color_ops(sl, I(2));
        S.at(I(1))->set_box(std::move(box));
        return "ok " + tohex(buf.data(), buf.size() * 4);
    }
    if (c == "lut3d") {
        std::string f = unhex(a.at(1)), t = unhex(a.at(2));
        auto img = ocg::get_color_transform_3dlut(rstr(f), rstr(t), I(3), C.at(I(4)));
        return "ok " + image_str(img);
    }
    if (c == "lutops") {
        auto img = ocg::get_color_ops_lut(*S.at(I(1)), I(2), I(3), C.at(I(4)));
        return "ok " + image_str(img);
    }
    if (c == "colorconv") {  // colorconv w h nch alpha unassoc from to <f32>
        auto buf = unpack<float>(a.at(8));
        rust::Slice<float> sl(buf.data(), buf.size());
        std::string f = unhex(a.at(6)), t = unhex(a.at(7));
        bool ok = oi::oiio_color_convert_inplace(sl, I(1), I(2), I(3), I(4), I(5) != 0, rstr(f), rstr(t));
        o << "ok " << (int) ok << " " << tohex(buf.data(), buf.size() * 4);
        return o.str();
    }
    if (c == "plane") {
        auto f = unpack<float>(a.at(1));
        auto p = oi::create_geometry_plane_box(f[0], f[1], f[2], f[3], (uint32_t) U(2), (uint32_t) U(3));
        if (a.size() > 4) p->set_divisions_x((uint32_t) U(4));
        if (a.size() > 5) p->set_divisions_y((uint32_t) U(5));
        std::vector<float> pos(p->calc_buffer_size_vertex_positions(), -12345.0f), uv(p->calc_buffer_size_vertex_uvs(), -12345.0f);
        std::vector<uint32_t> tri(p->calc_buffer_size_index_tris(), 0xffffffffu),
            brd(p->calc_buffer_size_index_border_lines(), 0xffffffffu), wire(p->calc_buffer_size_index_wire_lines(), 0xffffffffu);
        rust::Slice<float> sp(pos.data(), pos.size()), su(uv.data(), uv.size());
        rust::Slice<uint32_t> st(tri.data(), tri.size()), sb(brd.data(), brd.size()), sw(wire.data(), wire.size());
        bool ok1 = p->fill_buffer_vertex_positions(sp), ok2 = p->fill_buffer_vertex_uvs(su);
        bool ok3 = p->fill_buffer_index_tris(st), ok4 = p->fill_buffer_index_border_lines(sb), ok5 = p->fill_buffer_index_wire_lines(sw);
        o << "ok " << p->divisions_x() << " " << p->divisions_y() << " " << p->calc_count_vertex_positions() << " "
          << p->calc_count_vertex_uvs() << " " << ok1 << ok2 << ok3 << ok4 << ok5 << " " << tohex(pos.data(), pos.size() * 4)
          << " " << tohex(uv.data(), uv.size() * 4) << " " << tohex(tri.data(), tri.size() * 4) << " "
          << tohex(brd.data(), brd.size() * 4) << " " << tohex(wire.data(), wire.size() * 4);
        return o.str();
    }
    if (c == "mesh") {  // mesh <pos> <uv> <tris> <path>
        auto pos = unpack<float>(a.at(1)), uv = unpack<float>(a.at(2));
        auto tri = unpack<uint32_t>(a.at(3));
        std::string path = unhex(a.at(4));
        oi::export_mesh(rust::Slice<const float>(pos.data(), pos.size()), rust::Slice<const float>(uv.data(), uv.size()),
                        rust::Slice<const uint32_t>(tri.data(), tri.size()), rstr(path));
        return "ok";
    }
    if (c == "setenv") {
        const char *old = getenv(a.at(1).c_str());
        ENV0.emplace(a.at(1), std::make_pair(old != nullptr, std::string(old ? old : "")));
        if (a.size() > 2) setenv(a.at(1).c_str(), unhex(a.at(2)).c_str(), 1); else unsetenv(a.at(1).c_str());
        return "ok";
    }
    if (c == "config") {
        std::string f = a.size() > 1 ? unhex(a.at(1)) : "";
        ocg::Config cfg = a.size() > 1 ? ocg::Config(f.c_str()) : ocg::Config();
        float p = cfg.cache_ram_capacity_percent();
        o << "ok " << tohex(&p, 4) << " " << cfg.cache_ram_capacity_bytes() << " " << tohex(cfg.data_debug_string());
        return o.str();
    }
    if (c == "fsize") {  // fsize <bytes>: files cannot grow beyond this (-1: no limit)
        signal(SIGXFSZ, SIG_IGN);
        struct rlimit r;
        getrlimit(RLIMIT_FSIZE, &r);
        r.rlim_cur = I(1) < 0 ? r.rlim_max : (rlim_t) I(1);
        o << "ok " << setrlimit(RLIMIT_FSIZE, &r);
        return o.str();
    }
    if (c == "sysmem") { o << "ok " << (uint64_t) sysconf(_SC_PHYS_PAGES) * (uint64_t) sysconf(_SC_PAGE_SIZE); return o.str(); }
    if (c == "idname") { std::string s = unhex(a.at(1)); o << "ok " << oi::generate_id_from_name(rstr(s)); return o.str(); }
    if (c == "idrand") { o << "ok " << oi::generate_random_id(); return o.str(); }
    if (c == "idrandn") {   // idrandn n: distinct ids of n generated ones, and the first few
        std::vector<uint64_t> v;
        for (long long i = 0; i < I(1); ++i) v.push_back(oi::generate_random_id());
        std::ostringstream first;
        for (size_t i = 0; i < v.size() && i < 20; ++i) first << " " << v[i];
        std::sort(v.begin(), v.end());
        o << "ok " << (std::unique(v.begin(), v.end()) - v.begin()) << first.str();
        return o.str();
    }
    if (c == "stride") {
        o << "ok " << oi::stride_num_channels(I(1), (ocg::DataType) I(2)) << " " << oi::channel_size_bytes((ocg::DataType) I(2));
        return o.str();
    }
    // ---- the harness's own image files, through OpenImageIO and none of the code under test ----
    if (c == "writeimg") {
        // writeimg path type w h nch x y full_x full_y full_w full_h <pixels hex> {attr kind value}*
        std::string path = unhex(a.at(1));
        OIIO::ImageSpec spec(I(3), I(4), I(5), dtype(a.at(2)));
        spec.x = I(6); spec.y = I(7);
        int parts = 0;
        spec.full_x = I(8); spec.full_y = I(9); spec.full_width = I(10); spec.full_height = I(11);
        for (size_t i = 13; i + 2 < a.size(); i += 3) {
            std::string name = unhex(a[i]);
            if (name == "parts") { parts = std::stoi(a[i + 2]); continue; }
            if (a[i + 1] == "s") spec.attribute(name, unhex(a[i + 2]));
            else if (a[i + 1] == "i") spec.attribute(name, std::stoi(a[i + 2]));
            else spec.attribute(name, unpack1<float>(a[i + 2]));
        }
        std::string px = unhex(a.at(12));
        if (parts > 0) {       // more pictures in the same file, after this one, with other pixels
            std::vector<OIIO::ImageSpec> specs(parts + 1, spec);
            auto many = OIIO::ImageOutput::create(path);
            bool exr = std::string(many ? many->format_name() : "") == "openexr";
            for (int k = 0; k <= parts; ++k) specs[k].attribute("oiio:subimagename", "part" + std::to_string(k));
            bool ok = many && (exr ? many->open(path, parts + 1, specs.data()) : many->open(path, specs[0]));
            for (int k = 0; ok && k <= parts; ++k) {
                if (k) ok = many->open(path, specs[k], OIIO::ImageOutput::AppendSubimage);
                std::string p(px.rbegin(), px.rend());
                ok = ok && many->write_image(dtype(a.at(2)), k ? p.data() : px.data());
            }
            ok = many && many->close() && ok;
            return ok ? "ok" : "err write";
        }
        auto out = OIIO::ImageOutput::create(path);
        if (!out || !out->open(path, spec)) return "err open";
        bool ok = out->write_image(dtype(a.at(2)), px.data());
        ok = out->close() && ok;
        return ok ? "ok" : "err write";
    }
    if (c == "readimg") {
        std::string path = unhex(a.at(1));
        auto in = OIIO::ImageInput::open(path);
        if (!in) { OIIO::geterror(); return "err open"; }
        auto spec = in->spec();
        std::vector<float> px((size_t) spec.width * spec.height * spec.nchannels);
        if (!in->read_image(OIIO::TypeDesc::FLOAT, px.data())) return "err read";
        o << "ok " << tohex(std::string(spec.format.c_str())) << " " << spec.width << " " << spec.height << " " << spec.nchannels
          << " " << spec.x << " " << spec.y << " " << spec.full_x << " " << spec.full_y << " " << spec.full_width << " "
          << spec.full_height << " " << tohex(spec.get_string_attribute("oiio:ColorSpace")) << " "
          << tohex(spec.get_string_attribute("compression")) << " " << spec.get_float_attribute("PixelAspectRatio", 1.0f) << " "
          << spec.get_int_attribute("Orientation", 1) << " " << spec.get_float_attribute("oiio:Gamma", 1.0f) << " " << tohex(px.data(), px.size() * 4);
        in->close();
        return o.str();
    }
    return "err unknown command " + c;
}

static int serve(FILE *reply) {
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> a;
        std::istringstream is(line);
        std::string t;
        while (is >> t) a.push_back(t);
        if (a.empty()) continue;
        std::string r;
        if (a[0] == "sync") {
            r = "sync " + a.at(1);
        } else {
            try {
                // A command may use 20 s of processor time (not wall-clock); SIGPROF ends the process.
                struct itimerval cpu = {{0, 0}, {20, 0}};
                setitimer(ITIMER_PROF, &cpu, nullptr);
                r = handle(a);
            } catch (const std::exception &e) {
                r = std::string("err exception ") + e.what();
            }
        }
        for (auto &ch : r) if (ch == '\n') ch = ' ';
        std::fprintf(reply, "%s\n", r.c_str());
        std::fflush(reply);
    }
    return 0;
}

// The parent only forks: a child that the code under test brings down is reported and replaced.
int main() {
    int fd = dup(1);
    FILE *reply = fdopen(fd, "w");
    // The code under test prints to stdout: keep the protocol on a private copy of it.
    freopen("/dev/null", "w", stdout);
    struct rlimit nocore = {0, 0}, mem = {(rlim_t) 6 << 30, (rlim_t) 6 << 30};
    setrlimit(RLIMIT_CORE, &nocore);
    for (;;) {
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setrlimit(RLIMIT_AS, &mem);
            int rc = serve(reply);
            std::fflush(reply);
            _exit(rc);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (WIFSIGNALED(st)) std::fprintf(reply, "CRASH signal %d\n", WTERMSIG(st));
        else std::fprintf(reply, "CRASH exit %d\n", WEXITSTATUS(st));
        std::fflush(reply);
    }
}

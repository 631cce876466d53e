// Stand-in for src/deformer/ldpk_utils.cpp, whose library (LDPK) is not installed here.
//
// It implements the same interface with a simple closed-form affine model, in LDPK's unit
// coordinates (0..1 over the image), such that 'undistort' and 'distort' are exact inverses and
// every parameter has an effect.  The Rust side (parameter passing, direction, normalisation,
// bounding boxes, ordering) is the code under test; this is its environment.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>

#include <opencompgraph.h>

// Model, mirrored by the Python oracle:
//   k  = distortion + 0.5 * quartic_distortion
//   cx = 0.5 + lens_center_offset_x / film_back_width, cy = 0.5 + lens_center_offset_y / film_back_height
//   sx = 1 + 0.25 * (anamorphic_squeeze - 1) + 0.1 * curvature_x + 0.01 * (focal_length - 3)
//   sy = 1 + 0.2 * (pixel_aspect - 1) + 0.1 * curvature_y
//   d = p - c;  undistort(p) = (cx + sx*(1+0.2k)*d.x,  cy + sy*(1+0.2k)*d.y + 0.1*k*d.x)
class tde4_ld_plugin {
public:
    std::map<std::string, double> p;
    bool initialised = false;
};

namespace open_comp_graph {
namespace internal {

static double get(const tde4_ld_plugin *m, const char *name, double dflt) {
    auto it = m->p.find(name);
    return it == m->p.end() ? dflt : it->second;
}

struct Model {
    double cx, cy, a, b, c;
};

static Model model(const tde4_ld_plugin *m) {
    double k = get(m, "Distortion", 0.0) + 0.5 * get(m, "Quartic Distortion", 0.0);
    double fw = get(m, "tde4_filmback_width_cm", 3.6);
    double fh = get(m, "tde4_filmback_height_cm", 2.4);
    Model r;
    r.cx = 0.5 + get(m, "tde4_lens_center_offset_x_cm", 0.0) / fw;
    r.cy = 0.5 + get(m, "tde4_lens_center_offset_y_cm", 0.0) / fh;
    double sx = 1.0 + 0.25 * (get(m, "Anamorphic Squeeze", 1.0) - 1.0) + 0.1 * get(m, "Curvature X", 0.0) +
                0.01 * (get(m, "tde4_focal_length_cm", 3.0) - 3.0);
    double sy = 1.0 + 0.2 * (get(m, "tde4_pixel_aspect", 1.0) - 1.0) + 0.1 * get(m, "Curvature Y", 0.0);
    r.a = sx * (1.0 + 0.2 * k);
    r.b = sy * (1.0 + 0.2 * k);
    r.c = 0.1 * k;
    return r;
}

OcgLdPluginBase::OcgLdPluginBase() { m_plugin = new tde4_ld_plugin(); }
OcgLdPluginBase::~OcgLdPluginBase() { delete m_plugin; }
rust::Str OcgLdPluginBase::get_version_string() const { return rust::Str("stub"); }
bool OcgLdPluginBase::get_model_name(rust::Slice<uint8_t> name) {
    const char *s = "3DE Classic LD Model";
    for (size_t i = 0; i < name.length() && i < std::strlen(s); ++i) name.data()[i] = (uint8_t) s[i];
    return true;
}
bool OcgLdPluginBase::get_num_parameters(int32_t &value) { value = 5; return true; }
static const char *NAMES[] = {"Distortion", "Anamorphic Squeeze", "Curvature X", "Curvature Y", "Quartic Distortion"};
bool OcgLdPluginBase::get_parameter_name(int32_t i, rust::Slice<uint8_t> id) {
    if (i < 0 || i >= 5) return false;
    for (size_t j = 0; j < id.length() && j < std::strlen(NAMES[i]); ++j) id.data()[j] = (uint8_t) NAMES[i][j];
    return true;
}
bool OcgLdPluginBase::get_parameter_type(rust::Str, int32_t &t) { t = 1; return true; }
bool OcgLdPluginBase::get_parameter_default_value_f64(rust::Str id, double &v) {
    v = std::string(id) == "Anamorphic Squeeze" ? 1.0 : 0.0;
    return true;
}
bool OcgLdPluginBase::get_parameter_range(rust::Str, double &a, double &b) { a = -1.0; b = 1.0; return true; }
bool OcgLdPluginBase::set_parameter_value_f64(rust::Str id, double value) {
    std::string key(id);
    m_plugin->p[key.c_str()] = value;  // identifiers arrive with a trailing NUL
    m_plugin->initialised = false;
    return true;
}
bool OcgLdPluginBase::initialize_parameters() { m_plugin->initialised = true; return true; }
bool OcgLdPluginBase::undistort(double x0, double y0, double &x1, double &y1) {
    if (!m_plugin->initialised) { x1 = -1000.0; y1 = -1000.0; return false; }
    Model m = model(m_plugin);
    double dx = x0 - m.cx, dy = y0 - m.cy;
    x1 = m.cx + m.a * dx;
    y1 = m.cy + m.b * dy + m.c * dx;
    return true;
}
bool OcgLdPluginBase::distort(double x0, double y0, double &x1, double &y1) {
    if (!m_plugin->initialised) { x1 = -1000.0; y1 = -1000.0; return false; }
    Model m = model(m_plugin);
    double dx = (x0 - m.cx) / m.a;
    double dy = (y0 - m.cy - m.c * dx) / m.b;
    x1 = m.cx + dx;
    y1 = m.cy + dy;
    return true;
}
bool OcgLdPluginBase::distort_with_guess(double x0, double y0, double, double, double &x1, double &y1) {
    return distort(x0, y0, x1, y1);
}
bool OcgLdPluginBase::provides_parameter_derivatives() { return false; }

template <class F>
static void bbox(double xa, double ya, double xb, double yb, double &xo, double &yo, double &xp, double &yp, F f) {
    double xs[2] = {xa, xb}, ys[2] = {ya, yb};
    xo = yo = 1e300;
    xp = yp = -1e300;
    for (double x : xs)
        for (double y : ys) {
            double u, v;
            f(x, y, u, v);
            xo = std::min(xo, u); xp = std::max(xp, u);
            yo = std::min(yo, v); yp = std::max(yp, v);
        }
}
void OcgLdPluginBase::get_bounding_box_undistort(double xa, double ya, double xb, double yb, double &xo, double &yo,
                                                 double &xp, double &yp, int, int) {
    bbox(xa, ya, xb, yb, xo, yo, xp, yp, [this](double x, double y, double &u, double &v) { undistort(x, y, u, v); });
}
void OcgLdPluginBase::get_bounding_box_distort(double xa, double ya, double xb, double yb, double &xo, double &yo,
                                               double &xp, double &yp, int, int) {
    bbox(xa, ya, xb, yb, xo, yo, xp, yp, [this](double x, double y, double &u, double &v) { distort(x, y, u, v); });
}
std::unique_ptr<OcgLdPluginBase> ldpk_new_plugin() { return std::unique_ptr<OcgLdPluginBase>(new OcgLdPluginBase()); }

// Used only when src/systemmemory.cpp cannot be compiled on this platform.
__attribute__((weak)) size_t get_total_system_memory_as_bytes() {
    return (size_t) sysconf(_SC_PHYS_PAGES) * (size_t) sysconf(_SC_PAGE_SIZE);
}

}  // namespace internal
}  // namespace open_comp_graph

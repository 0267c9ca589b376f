// Forces inline members that no translation unit of the library uses into the IR, so that
// they can be analysed too.  Never linked or run.
#include "rmath.h"
namespace verif_driver {
using namespace rmath;
rect d_inflated(const rect& r, const double& n) { return r.inflated(n); }
rect d_rect_offset(const vec2& p, double n) { return rect(p, n); }
double d_width(const rect& r) { return r.width(); }
double d_height(const rect& r) { return r.height(); }
vec2 d_center(const rect& r) { return r.center(); }
rect d_from1(const vec2& a) { return rect::from({a}); }
rect d_from2(const vec2& a, const vec2& b) { return rect::from({a, b}); }
rect d_from3(const vec2& a, const vec2& b, const vec2& c) { return rect::from({a, b, c}); }
rect d_from4(const vec2& a, const vec2& b, const vec2& c, const vec2& d) { return rect::from({a, b, c, d}); }
}

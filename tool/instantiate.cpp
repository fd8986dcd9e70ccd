// Forces member functions of the container templates that no command uses into the
// analysed program: they are part of the API.  Compiled, never run.  Every use is
// guarded by a requires-expression, so a removed or renamed member drops out.
#include "spffl/containers/tvector.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tstack.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/fp_poly_t.h"
using spffl::intmath::intmod_t;
#define USE(...) if constexpr (requires { __VA_ARGS__; }) { __VA_ARGS__; }
template <class T> void use_vector(tvector<T> &v, tvector<T> &w, T &e) {
  USE(v = w) USE(v = e) USE(v + w) USE(v - w) USE(-v) USE(v * e) USE(v * w) USE(v.dot(w)) USE(v / w)
  USE(v += w) USE(v -= w) USE(v *= e) USE(v *= w) USE(v /= e) USE(v.mult_by(e)) USE(v == w) USE(v != w)
  USE(v == e) USE(v != e) USE(v.ptrswap(w)) USE(v.trim_num_elements(1)) USE(v[0]) USE(v.expose())
  USE(v.accum_row_mul(e, w)) USE(v.get_num_elements()) USE(v.sqzout(std::cout)) USE(v.crout(std::cout))
  USE(tvector<T>(v)) USE(tvector<T>(3)) USE(tvector<T>(e, 3))
}
template <class T> void use_matrix(tmatrix<T> &a, tmatrix<T> &b, tvector<T> &v, T &e) {
  USE(a = b) USE(a = e) USE(a == b) USE(a == e) USE(a != b) USE(a != e) USE(a[0]) USE(a.get_column(0))
  USE(a.put_column(0, v)) USE(a + b) USE(a - b) USE(-a) USE(a + e) USE(a - e) USE(a * v) USE(a * b) USE(a * e)
  USE(a += b) USE(a -= b) USE(a += e) USE(a -= e) USE(a.transpose()) USE(a.flip_horiz())
  USE(a.flip_vert()) USE(a.flip_horiz_vert()) USE(a.is_zero()) USE(a.is_square()) USE(a.swap(0, 1)) USE(a.paste(b))
  USE(a.paste_vector(v)) USE(a.trim_num_rows(1)) USE(a.get_num_rows()) USE(a.get_num_cols())
  USE(a.row_reduce_below()) USE(a.row_echelon_form()) USE(a.make_I(e, e)) USE(a.is_I())
  int i; USE(a.find_row(v, i)) USE(a.find_one(e))
  USE(v * a)
}
template <class T> void use_stack(tstack<T> &s, tstack<T> &t, T &e) {
  USE(s = t) USE(tstack<T>(s)) USE(s.push(e)) USE(s.pop(e))
}
template <class T> void use_facinfo(tfacinfo<T> &s, tfacinfo<T> &t, T &e) {
  USE(s = t) USE(tfacinfo<T>(s)) USE(s.get_num_distinct()) USE(s.get_num_factors()) USE(s.get_ith_factor(0))
  USE(s.get_ith_count(0)) USE(s.get_unit(e)) USE(s.insert_factor(e)) USE(s.insert_factor(e, 2)) USE(s.insert_unit(e))
  USE(s.exp_all(2)) USE(s.merge(t)) USE(s.unfactor(e)) USE(s.get_num_divisors()) USE(s.get_kth_divisor(0, e))
  USE(s.get_all_divisors(e)) USE(s.get_maximal_proper_divisors(e))
}
void use_all() {
  { tvector<int> v, w; int e = 1; use_vector(v, w, e); tmatrix<int> a, b; use_matrix(a, b, v, e); }
  { tvector<intmod_t> v, w; intmod_t e(1, 7); use_vector(v, w, e); tmatrix<intmod_t> a, b; use_matrix(a, b, v, e); }
  { tstack<int> s, t; int e = 1; use_stack(s, t, e); }
  { tstack<intmod_t> s, t; intmod_t e(1, 7); use_stack(s, t, e); }
  { tfacinfo<int> s, t; int e = 1; use_facinfo(s, t, e); }
}

#!/usr/bin/env python3
"""writes known_findings.json from the fix commits (one entry per property a defect broke) and the table of unrepaired findings"""
import json, subprocess, os
FIX = '''
1be6a87 P05,P12 bit_vector_t::operator=
40a54ea P03,P05 bit_vector_t::trim
71a79bb P05,P12 bit_vector_t compound operators, dot, accum_row
ec1f068 P12 bit_vector_t::operator==
2064c6b P12 bit_vector_t(int fill)
8ee907d P12 bit_t::operator=(int)
37191b0 P10,P12 bit_matrix_t::outer
e51a4f7 P05,P12 bit_matrix_t::paste
59d197b P06 bit_matrix_t::row_reduce_below
8db8df4 P05,P06 operator>>(bit_matrix_t)
1a8c413 P05 bit_matrix_t::swap
d42448d P05,P12 tvector_t::operator=
681c0e4 P12 tvector_t scalar compound operators
47978d9 P05 tvector_t::dot, vgcd, vector*matrix
8e53edb P06 tstack_t::operator=
a16dd57 P06 tfacinfo_t::operator=
e9db27a P08 tfacinfo_t copy
86c8d01 P06 tfacinfo_t growth
05627db P05 tmatrix_t on empty matrices
31d45bc P05,P12 tmatrix_t::paste
e60da06 P05 operator>>(tmatrix_t)
35ac215 P04,P08 tmatrix_t::ed_det
fa5ab1c P05 tmatrix_t::swap
07d3d42 P05 polynomial unary minus
420439c P06 polynomial operators
096210c P05,P06 polynomial self-assignment
d6df997 P05 polynomial root extraction
60de158 P03 f2n_poly_t::square_root
783b3ff P19 fpn_poly_t::pth_root
0b182c3 P05,P06 polynomial from_string
e3ab35a P03 e == -e
21dbd35 P03,P09 intmod_t arithmetic
ae2fde9 P09 operator>>(intmod_t)
dfaaeea P11 int_gcd
013f973 P03 int_lcm
d5f8cf2 P03 int_ext_gcd
651cc2a P11 operator>>(intrat_t)
2f80c87 P11 operator>>(polynomial fractions)
3a4cc7c P11 fp_polyrat_t unary minus
298e5a3 P02,P19 fp_polymod_t * intmod_t
a32f0aa P19 polynomial residue * negative int
1fcc8bf P03 f2_poly_t::set_coeff
827f26b P05 f2_poly_t::set_coeff
73fd5fd P19 fpn_polymod_t * negative int
e9be2e8 P10,P17 spiff main
1a8c95d P15 spiff dispatch table
19629fa P07 cmd_interp
1ffa46b P03 bit_vector_t tail masks
a2db785 P14 intmod_t::recip
e0a37ae P17 f2n_polymod_log
f30a6da P15 f2n_polymod_log
004a911 P15,P07 fp_pm_mat_op, fp_pm_vecop
'''
KNOWN = []
out = list(KNOWN)
for line in FIX.strip().splitlines():
    h, ps, where = line.split(' ', 2)
    msg = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%s', h], capture_output=True, text=True).stdout.strip()
    assert msg.startswith('fix: '), (h, msg)
    for p in ps.split(','):
        out.append({'property': p, 'status': 'fixed', 'function': where, 'commit': h, 'what': msg[5:],
                    'line': f'fixed: property={p} {h} {msg[5:]}'})
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(out, open(os.path.join(here, 'known_findings.json'), 'w'), indent=1)
print(len(out))

#!/usr/bin/env python3
"""Generate the sim_clingo_* layer from clingo.h.

Every clingo_* function the library calls is redirected (objcopy) to sim_clingo_*. Functions listed in HAND are
implemented by the simulated solver (solver.cc); all others are passed through to the real libclingo behind a guard
that leaves the 'in repository' state, offers a scheduling point and may inject a failure."""
import re, sys

hdr = open('/usr/include/clingo.h').read()
hdr = re.sub(r'//[^\n]*', '', hdr)
hdr = re.sub(r'/\*.*?\*/', '', hdr, flags=re.S)
protos = re.findall(r'CLINGO_VISIBILITY_DEFAULT\s+([^;{]*?\));', hdr, flags=re.S)

HAND_PREFIX = ('clingo_assignment_', 'clingo_propagate_init_', 'clingo_propagate_control_', 'clingo_model_',
               'clingo_statistics_', 'clingo_theory_atoms_', 'clingo_solve_handle_', 'clingo_solve_control_', 'clingo_options_')
HAND = {'clingo_control_register_propagator', 'clingo_control_theory_atoms', 'clingo_control_solve', 'clingo_main',
        'clingo_ast_parse_string', 'clingo_ast_parse_files', 'clingo_ast_unpool', 'clingo_symbol_hash'}
# functions returning a value as bool, or called where an error cannot be reported (destructors of clingo.hh)
NOFAIL = {'clingo_symbol_is_equal_to', 'clingo_symbol_is_less_than', 'clingo_ast_less_than', 'clingo_ast_equal',
          'clingo_signature_is_positive', 'clingo_signature_is_negative', 'clingo_signature_is_equal_to',
          'clingo_signature_is_less_than', 'clingo_control_is_conflicting', 'clingo_program_builder_end',
          'clingo_control_get_enable_enumeration_assumption', 'clingo_control_get_enable_cleanup'}
NEWREF = {'clingo_ast_copy': 'copy', 'clingo_ast_deep_copy': 'copy', 'clingo_ast_attribute_get_ast': 'value',
          'clingo_ast_attribute_get_ast_at': 'value', 'clingo_ast_attribute_get_optional_ast': 'value',
          'clingo_ast_build': 'ast', 'clingo_ast_parse_term': 'ast'}

out = ['// generated by gen_wrap.py', '#include "core.hh"', '#include <cstdarg>', 'extern "C" {']
names = []
syms = []
for p in protos:
    p = ' '.join(p.split())
    # name is the first identifier directly before the parameter list
    m = re.match(r'^(.*?)\b(clingo_\w+)\s*\((.*)\)$', p)
    if not m:
        sys.stderr.write('skip %s\n' % p)
        continue
    ret, name, args = m.group(1).strip(), m.group(2), m.group(3).strip()
    idx = len(names)
    names.append(name)
    syms.append(name)
    if name in HAND or name.startswith(HAND_PREFIX):
        continue
    # split parameters
    parts, depth, curp = [], 0, ''
    for ch in args:
        if ch == '(':
            depth += 1
        if ch == ')':
            depth -= 1
        if ch == ',' and depth == 0:
            parts.append(curp.strip())
            curp = ''
        else:
            curp += ch
    if curp.strip():
        parts.append(curp.strip())
    if parts == ['void']:
        parts = []
    if parts and parts[-1] == '...':
        if name != 'clingo_ast_build':
            sys.stderr.write('vararg %s\n' % name)
            syms.pop()
            continue
        # rarely used; forwarded with up to 16 pointer sized arguments
        out.append('bool sim_clingo_ast_build(clingo_ast_type_t type, clingo_ast_t **ast, ...) { Api a_(%d, true); if '
                   '(a_.fail()) return false; va_list ap; va_start(ap, ast); void *x[16]; for (auto &y : x) y = '
                   'va_arg(ap, void *); va_end(ap); bool r_ = clingo_ast_build(type, ast, x[0], x[1], x[2], x[3], '
                   'x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]); if (r_) '
                   '++ast_balance; return r_; }' % idx)
        continue
    pn = []
    for i, q in enumerate(parts):
        mm = re.match(r'^(.*\(\s*\*\s*)(\w+)(\s*\).*)$', q)
        if mm and '(' in q:
            pn.append(mm.group(2))
        else:
            mm = re.search(r'(\w+)\s*(\[[^\]]*\])?$', q)
            pn.append(mm.group(1))
    call = '%s(%s)' % (name, ', '.join(pn))
    may = 'true' if ret == 'bool' and name not in NOFAIL and not name.startswith('clingo_error') else 'false'
    if name == 'clingo_symbolic_atoms_is_valid':
        may = 'true'
    body = 'Api a_(%d, %s); ' % (idx, may)
    if may == 'true':
        body += 'if (a_.fail()) return false; '
    if ret == 'void':
        body += call + '; '
        if name == 'clingo_ast_acquire':
            body += '++ast_balance; '
        if name == 'clingo_ast_release':
            body += '--ast_balance; '
    elif name in NEWREF:
        body += 'bool r_ = %s; if (r_ && *%s != nullptr) ++ast_balance; return r_; ' % (call, NEWREF[name])
    else:
        body += 'auto r_ = %s; return r_; ' % call
    out.append('%s sim_%s(%s) { %s}' % (ret, name, ', '.join(parts) if parts else 'void', body))
out.append('}')
out.append('char const *const fn_names[] = {%s};' % ', '.join('"%s"' % n for n in names))
out.append('int const fn_count = %d;' % len(names))
open(sys.argv[1], 'w').write('\n'.join(out) + '\n')
with open(sys.argv[2], 'w') as f:
    for s in sorted(set(syms)):
        f.write('%s sim_%s\n' % (s, s))
    f.write('main clingodl_app_main\n')
    for s in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', '__cxa_guard_acquire',
              '__cxa_guard_release', '__cxa_guard_abort'):
        f.write('%s sim_%s\n' % (s, s))
    # other sources of nondeterminism (not used at the moment)
    f.write('_ZNSt6chrono3_V212system_clock3nowEv sim_system_clock\n')
    f.write('_ZNSt13random_device9_M_getvalEv sim_random_device\n')
    for s in ('rand', 'random', 'time', 'clock', 'clock_gettime', 'gettimeofday'):
        f.write('%s sim_%s\n' % (s, s))
if len(sys.argv) > 4 and sys.argv[4] == 'race':
    with open(sys.argv[2], 'a') as f:
        for s in ('memcpy', 'memmove', 'memset'):
            f.write('%s sim_%s\n' % (s, s))
with open(sys.argv[3], 'w') as f:
    for i, n in enumerate(names):
        f.write('F_%s = %d,\n' % (n[len('clingo_'):], i))

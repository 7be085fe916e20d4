#!/usr/bin/env python3
"""Rewrites LLVM text IR so that every operation on `double` goes through the
symbolic runtime (symrt.c).  Only the type `double` is touched; loads, stores,
copies, phis, selects and integer code stay as compiled."""
import re, sys

_BIN = {'fadd': 'add', 'fsub': 'sub', 'fmul': 'mul', 'fdiv': 'div', 'frem': 'rem'}
_LIBM = {}
for n in ('sqrt pow sin cos exp log fabs hypot fmax fmin ceil floor rint round trunc copysign '
          'fma erf tgamma atan asinh lgamma tanh').split():
    _LIBM[n] = 'symfp_' + n
_INTR = {'llvm.fabs.f64': 'symfp_fabs', 'llvm.sqrt.f64': 'symfp_sqrt', 'llvm.pow.f64': 'symfp_pow',
         'llvm.powi.f64.i32': 'symfp_powi', 'llvm.sin.f64': 'symfp_sin', 'llvm.cos.f64': 'symfp_cos',
         'llvm.exp.f64': 'symfp_exp', 'llvm.log.f64': 'symfp_log', 'llvm.fma.f64': 'symfp_fma',
         'llvm.fmuladd.f64': 'symfp_fma', 'llvm.ceil.f64': 'symfp_ceil', 'llvm.floor.f64': 'symfp_floor',
         'llvm.rint.f64': 'symfp_rint', 'llvm.nearbyint.f64': 'symfp_rint', 'llvm.round.f64': 'symfp_round',
         'llvm.trunc.f64': 'symfp_trunc', 'llvm.copysign.f64': 'symfp_copysign',
         'llvm.maxnum.f64': 'symfp_fmax', 'llvm.minnum.f64': 'symfp_fmin',
         'llvm.maximum.f64': 'symfp_fmax', 'llvm.minimum.f64': 'symfp_fmin'}

_FLAGS = r'(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc)\s+)*'
_VAL = r'(%[\w.$-]+|%"[^"]*"|[-+]?\d[\w.+-]*|0x[0-9A-Fa-f]+|undef|poison)'
_RE_BIN = re.compile(r'^(\s*\S+ = )(fadd|fsub|fmul|fdiv|frem) ' + _FLAGS + r'double ' + _VAL + r', ' + _VAL)
_RE_NEG = re.compile(r'^(\s*\S+ = )fneg ' + _FLAGS + r'double ' + _VAL)
_RE_CMP = re.compile(r'^(\s*\S+ = )fcmp ' + _FLAGS + r'(\w+) double ' + _VAL + r', ' + _VAL)
_RE_CVT = re.compile(r'^(\s*)(\S+)( = )(fptosi|fptoui) double ' + _VAL + r' to (i\d+)')
_RE_TRUNC = re.compile(r'^(\s*\S+ = )fptrunc double ' + _VAL + r' to float')
_RE_EXT80 = re.compile(r'^(\s*\S+ = )fpext double ' + _VAL + r' to x86_fp80')
_RE_NAME = re.compile(r'@("?)([\w.]+)\1\(')
_VEC = re.compile(r'<\d+ x double>')

class Unsupported(Exception):
    pass

def rewrite(text):
    out, used, stats, k = [], set(), {}, 0
    def hit(kind): stats[kind] = stats.get(kind, 0) + 1
    for line in text.split('\n'):
        s = line.lstrip()
        if ' f' in line or s.startswith('%'):
            m = _RE_BIN.match(line)
            if m:
                f = 'symfp_' + _BIN[m[2]]; used.add((f, 'double', 'double, double')); hit(m[2])
                line = f'{m[1]}call double @{f}(double {m[3]}, double {m[4]})'
                out.append(line); continue
            m = _RE_NEG.match(line)
            if m:
                used.add(('symfp_neg', 'double', 'double')); hit('fneg')
                out.append(f'{m[1]}call double @symfp_neg(double {m[2]})'); continue
            m = _RE_CMP.match(line)
            if m:
                if m[2] in ('true', 'false'): out.append(line); continue
                f = 'symfp_fcmp_' + m[2]; used.add((f, 'zeroext i1', 'double, double')); hit('fcmp')
                out.append(f'{m[1]}call zeroext i1 @{f}(double {m[3]}, double {m[4]})'); continue
            m = _RE_CVT.match(line)
            if m:
                f = 'symfp_' + m[4]; used.add((f, 'i64', 'double')); hit(m[4])
                bits = int(m[6][1:])
                if bits == 64:
                    out.append(f'{m[1]}{m[2]}{m[3]}call i64 @{f}(double {m[5]})')
                else:
                    t = f'%symrt.cvt.{k}'; k += 1
                    out.append(f'{m[1]}{t} = call i64 @{f}(double {m[5]})')
                    out.append(f'{m[1]}{m[2]}{m[3]}trunc i64 {t} to {m[6]}')
                continue
            m = _RE_TRUNC.match(line)
            if m:
                used.add(('symfp_fptrunc', 'float', 'double')); hit('fptrunc')
                out.append(f'{m[1]}call float @symfp_fptrunc(double {m[2]})'); continue
            m = _RE_EXT80.match(line)
            if m:
                used.add(('symfp_fpext80', 'x86_fp80', 'double')); hit('fpext')
                out.append(f'{m[1]}call x86_fp80 @symfp_fpext80(double {m[2]})'); continue
        if '@' in line and ('call' in line or 'invoke' in line or s.startswith('declare')):
            def sub(m):
                n = m[2]
                if n in _INTR: hit('call ' + n); return '@' + _INTR[n] + '('
                if n in _LIBM: hit('call ' + n); return '@' + _LIBM[n] + '('
                return m[0]
            line = _RE_NAME.sub(sub, line)
        if _VEC.search(line) and not s.startswith(';') and re.search(r'\b(fadd|fsub|fmul|fdiv|fcmp|fneg)\b', line):
            raise Unsupported(line)
        out.append(line)
    text = '\n'.join(out)
    # a runtime function may be declared twice (libm name and intrinsic, or both)
    seen, final = set(), []
    for line in text.split('\n'):
        if line.startswith('declare'):
            m = re.search(r'@(symfp_\w+)\(', line)
            if m:
                if m[1] in seen: continue
                seen.add(m[1])
        final.append(line)
    for f, r, a in sorted(used):
        if f not in seen: final.append(f'declare {r} @{f}({a})')
    return '\n'.join(final), stats

if __name__ == '__main__':
    t, st = rewrite(open(sys.argv[1]).read())
    open(sys.argv[2], 'w').write(t)

"""wire.py MODULE op1 op2:s ... : adds events to spec/Trace.tla (op:s passes the state, op:sa also defines After)."""
import re, sys
p = '/verif/spec/Trace.tla'
s = open(p).read()
mod = sys.argv[1]
if mod not in s:
    s = re.sub(r'(EXTENDS [^\n]*)', lambda m: m.group(1) + ', ' + mod, s, 1)
for a in sys.argv[2:]:
    op, _, fl = a.partition(':')
    if '"%s" -> Fail_' % op not in s:
        arg = '(s, ev)' if 's' in fl else '(ev)'
        s = s.replace('      [] OTHER -> {"unk', '      [] ev.op = "%s" -> Fail_%s%s\n      [] OTHER -> {"unk' % (op, op, arg))
    if 'a' in fl and '"%s" -> After_' % op not in s:
        s = s.replace('      [] OTHER -> s\n', '      [] ev.op = "%s" -> After_%s(s, ev)\n      [] OTHER -> s\n' % (op, op))
open(p, 'w').write(s)

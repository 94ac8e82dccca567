"""A stand-in for the latex program (a shell script in a scratch directory)."""
import os
import stat

SCRIPT = r'''#!/bin/sh
# $0 lies beside: mode (behaviour), record/ (what was seen)
PATH=/usr/bin:/bin
here=$(dirname "$0")
mode=$(cat "$here/mode")
out=.
tex=
while [ $# -gt 0 ]; do
  case "$1" in
    -output-directory|--output-directory) out="$2"; shift ;;
    -output-directory=*|--output-directory=*) out="${1#*=}" ;;
    *.tex) tex="$1" ;;
  esac
  shift
done
[ -n "$tex" ] || exit 3
job=$(basename "$tex" .tex)
n=$(ls "$here/record" | wc -l)
cp "$tex" "$here/record/$n.tex" || exit 4
ls -A > "$here/inside"
log="$out/$job.log"
err="! Undefined control sequence.
l.4 \$\\foo
          \$
"
case "$mode" in
  ok)        printf 'This is a stand-in\nOutput written.\n' > "$log"; : > "$out/$job.dvi"; : > "$out/$job.aux"; exit 0 ;;
  oknolog)   exit 0 ;;
  okbinlog)  printf 'bad bytes \303\050 \377 here\n' > "$log"; exit 0 ;;
  okerrlog)  printf '%s\n' "$err" > "$log"; exit 0 ;;
  judge)     if grep -q 'undefinedmacro' "$tex"; then printf '%s\n' "$err" > "$log"; exit 1; fi
             if ! awk -f "$here/shift.awk" "$tex"; then printf '! Display math should end with $$.\n' > "$log"; exit 1; fi
             printf 'fine\n' > "$log"; exit 0 ;;
  undefined) printf 'intro\n%s\nmore\n' "$err" > "$log"; exit 1 ;;
  emergency) printf '! Emergency stop.\n<*> x\n\nend\n' > "$log"; exit 1 ;;
  later)     printf 'a\n\n(./x.tex Undefined\n\n! Undefined control sequence.\n<recently read> first\nl.7 here\n\n! Emergency stop.\n<*> second\n' > "$log"; exit 1 ;;
  fileline)  printf 'x\n(./textest.tex\n./textest.tex:4: Undefined control sequence.\nl.4 here\n\nend\n' > "$log"; exit 1 ;;
  indented)  printf 'x\n\n  (see below)  Emergency stop here\n  <*> why\n\nend\n' > "$log"; exit 1 ;;
  nolog)     exit 1 ;;
  emptylog)  : > "$log"; exit 1 ;;
  truncated) printf 'x\n! Undefined control sequence.' > "$log"; exit 1 ;;
  otherlog)  printf '! Missing $ inserted.\nl.3\n' > "$log"; exit 1 ;;
  binlog)    printf '! Undefined control sequence \303\050.\n\377\n' > "$log"; exit 1 ;;
  interrupt) kill -INT $(cat "$here/pid"); sleep 5 ;;
  killed)    printf 'x\n' > "$log"; kill -9 $$ ;;
esac
exit 5
'''

# how TeX reads the $ signs of the document body: one starts and ends a formula,
# two start and must end a displayed equation (the automaton of Latex.tla)
SHIFT = r'''
/\\begin\{document\}/ { on = 1 }
/\\end\{document\}/ { if (s != "text") bad = 1; on = 0 }
BEGIN { s = "text" }
on {
  n = length($0)
  for (i = 1; i <= n; i++) {
    c = substr($0, i, 1)
    if (c == "\\") { i++; continue }
    if (c == "%") break
    if (c != "$") continue
    two = substr($0, i + 1, 1) == "$"
    if (s == "inline") s = "text"
    else if (s == "display") { if (!two) { bad = 1; exit } ; i++; s = "text" }
    else if (two) { i++; s = "display" }
    else s = "inline"
  }
}
END { exit bad ? 1 : 0 }
'''

# what the log states first, for the behaviours that state an error
FIRST = {'judge': ['! Undefined control sequence.', 'l.4 $\\foo'], 'undefined': ['! Undefined control sequence.', 'l.4 $\\foo'],
         'emergency': ['! Emergency stop.', '<*> x'], 'truncated': ['! Undefined control sequence.'],
         'fileline': ['./textest.tex:4: Undefined control sequence.', 'l.4 here'], 'indented': ['Emergency stop', '<*> why'],
         'binlog': ['! Undefined control sequence'], 'later': ['! Undefined control sequence.', '<recently read> first', 'l.7 here']}


class FakeLatex(object):
    def __init__(self, base):
        self.bin = os.path.join(base, 'bin')
        self.empty = os.path.join(base, 'nobin')
        self.tmp = os.path.join(base, 'tmp')
        self.cwd = os.path.join(base, 'cwd')
        for d in (self.bin, self.empty, self.tmp, self.cwd, os.path.join(self.bin, 'record')):
            os.makedirs(d)
        f = os.path.join(self.bin, 'latex')
        with open(f, 'w') as fh:
            fh.write(SCRIPT)
        os.chmod(f, 0o755)
        with open(os.path.join(self.bin, 'shift.awk'), 'w') as fh:
            fh.write(SHIFT)
        # a PATH on which the program is found but cannot be run
        os.makedirs(os.path.join(base, 'denied', 'latex'))
        # and one on which it has no format that can be run
        self.noexec = os.path.join(base, 'noexec')
        os.makedirs(self.noexec)
        f = os.path.join(self.noexec, 'latex')
        with open(f, 'wb') as fh:
            fh.write(b'\x00\x01 not a program')
        os.chmod(f, 0o755)
        with open(os.path.join(self.bin, 'pid'), 'w') as fh:
            fh.write(str(os.getpid()))
        self.denied = os.path.join(base, 'denied')

    def set(self, mode):
        """Choose the behaviour; returns the PATH to use."""
        if mode == 'absent':
            os.environ['PATH'] = self.empty
        elif mode == 'denied':
            os.environ['PATH'] = self.denied + os.pathsep + self.empty
        elif mode == 'noexec':
            os.environ['PATH'] = self.noexec
        else:
            os.environ['PATH'] = self.bin
            with open(os.path.join(self.bin, 'mode'), 'w') as fh:
                fh.write(mode)
        rec = os.path.join(self.bin, 'record')
        for x in os.listdir(rec):
            os.remove(os.path.join(rec, x))

    def inside(self):
        """What was in the working directory while the program ran."""
        f = os.path.join(self.bin, 'inside')
        with open(f, encoding='utf-8', errors='replace') as fh:
            return fh.read().split()

    def documents(self):
        rec = os.path.join(self.bin, 'record')
        out = []
        for x in sorted(os.listdir(rec)):
            with open(os.path.join(rec, x), encoding='utf-8') as fh:
                out.append(fh.read())
        return out


def activate(base):
    """Private temporary and working directories for this process."""
    import tempfile
    f = FakeLatex(base)
    tempfile.tempdir = f.tmp
    os.environ['TMPDIR'] = f.tmp
    os.chdir(f.cwd)
    return f

"""C29: scripts/ISO-6093-NR3.pl, decimal numbers as its documentation words them"""
import itertools, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from vf import NPROC, REPO

DIG = "0123456789"
# the script itself runs in a fork of one interpreter, once per number
DRIVER = r'''
my ($script, $mode) = @ARGV; my @in; { local $/ = "\0"; open(my $f, "<:raw", $ARGV[2]) or die; while (<$f>) { chomp; push @in, $_; } }
open(my $err, ">&", \*STDERR); $| = 1;
for my $s (@in) { print "\x01"; my $p = fork; die unless defined $p; if (!$p) { @ARGV = ($mode, $s); $0 = $script; $! = 0; my $r = do $script; print STDERR $@ if $@; die "cannot run $script" if !defined $r && $!{ENOENT}; exit($@ ? 255 : 0); } waitpid($p, 0); print "\x02", $?; }
'''


def parse(mode, s):
    """what the number consists of, or None"""
    i = 0
    def digits():
        nonlocal i; a = i
        while i < len(s) and s[i] in DIG: i += 1
        return s[a:i]
    a = digits()
    if s[i:i + 1] != ".": return None
    i += 1; b = digits(); e = ""
    if s[i:i + 1] in ("e", "E") and i < len(s):
        i += 1; sign = s[i:i + 1] if s[i:i + 1] in ("-", "+") else ""; i += len(sign); d = digits()
        if not d: return None
        e = sign + d
        if mode == "strict" and (sign == "+" or len(d) > 1 and d[0] == "0"): return None
    if i != len(s): return None
    if mode == "strict" and (not a or not b or len(a) > 1 and a[0] == "0" or len(b) > 1 and b[-1] == "0"): return None
    return a, b, e


def numbers(c):
    out = ["".join(t) for n in range(0, (5 if c.quick else 7) + 1) for t in itertools.product("01.e-+"[:6], repeat=n)]
    r = random.Random("nr3/%s" % c.seed)
    def digs(): return "".join(r.choice(DIG) for _ in range(r.choice([0, 1, 1, 2, 3, 9, 25, 400 if r.random() < .1 else 2])))
    for _ in range(int((6000 if c.quick else 100000) * c.scale)):
        s = digs() + r.choice([".", ".", ".", ".", "", ",", ".."]) + digs() + r.choice(["", r.choice("eEeEx") + r.choice(["", "-", "+", "--"]) + digs()])
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            k = r.randrange(len(s) + 1); s = s[:k] + r.choice(list("0123456789.eE+- \tabcdfxX_'\"$@\\;%{}()[]|*?") + ["\u0661", "\u00b2", "\r", "inf", "nan", ""]) + s[k + r.randrange(2):]
        out.append(s)
    return out


def run(c):
    script = os.path.join(REPO, "scripts", "ISO-6093-NR3.pl"); drv = os.path.join(c.work, "drive.pl"); open(drv, "w").write("use Errno;\n" + DRIVER)
    todo = numbers(c) if not c.replay else [bytes.fromhex(c.replay.split(":")[1]).decode()]; todo = list(dict.fromkeys(s for s in todo if not s.endswith("\n")))
    def batch(args):
        mode, k, part = args; f = os.path.join(c.work, "%s%d" % (mode, k)); open(f, "wb").write(b"".join(s.encode() + b"\0" for s in part))
        rc, out, err = c.run(["perl", drv, script, mode, f], timeout=600)
        if rc != 0: c.add_violation("driver:" + mode, "", "exit %s: %s" % (rc, err.decode(errors="replace")[-1500:])); return
        rows = out.decode(errors="replace").split("\x01")[1:]
        if len(rows) != len(part): c.add_violation("driver:" + mode, "", "%d answers for %d numbers" % (len(rows), len(part))); return
        for s, row in zip(part, rows):
            got, _, st = row.partition("\x02"); w = parse(mode, s); want = "{ integer:%s fraction:%s exponent:%s }\n" % w if w else ""; c.evals += 1
            if w: c.add_cover("%s %s" % (mode, s)); c.add_stat("numbers_" + mode)
            if got != want or w and st != "0": c.add_violation("%s:%s" % (mode, "accepts" if not w else "rejects" if not got else "parts"), "nr3:" + s.encode().hex(), "%s %r: prints %r (status %s), expected %r" % (mode, s, got[:300], st, want[:300])); return
    jobs = [(m, k, todo[k::NPROC]) for m in ("relaxed", "strict") for k in range(NPROC) if todo[k::NPROC]]
    with ThreadPoolExecutor(NPROC) as ex: list(ex.map(batch, jobs))
    # by itself, as its usage line says
    r = random.Random("nr3s/%s" % c.seed)
    for mode, s in [("relaxed", "1.5"), ("strict", "1.5e-3")] + [(r.choice(["relaxed", "strict"]), r.choice(todo)) for _ in range(30)]:
        if not s and c.replay: continue
        rc, out, err = c.run(["perl", script, mode, s]); w = parse(mode, s); want = ("{ integer:%s fraction:%s exponent:%s }\n" % w).encode() if w else b""; c.evals += 1
        if out != want or w and rc != 0: c.add_violation("command", "nr3:" + s.encode().hex(), "%s %r: exit %s, prints %r, expected %r" % (mode, s, rc, out[:300], want))
    for args in ([], ["other", "1.5"], ["", "1.5"], ["Strict", "1.5"], ["1.5"], ["relaxedx", "1.5"]):
        rc, out, err = c.run(["perl", script] + args); c.evals += 1
        if rc in (0, "timeout") or out: c.add_violation("usage", "", "%r: exit %s, prints %r" % (args, rc, out[:200]))
    c.add_sample("strict 10.25e-7 -> %r, relaxed 010. -> %r" % (parse("strict", "10.25e-7"), parse("relaxed", "010.")))
    return "one per distinct text accepted, by mode; every text over 0 1 . e - + up to %d characters in both modes, and %d in all" % (5 if c.quick else 7, len(todo))

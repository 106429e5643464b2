#!/usr/bin/python3 -IS
"""A scripted solver process: performs the actions in $FAKE_SCRIPT (JSON list), logs its command line to
$FAKE_LOG.  Actions: ["o", text] ["e", text] write; ["s", seconds] sleep; ["x", code] exit; ["k", sig] kill
itself; ["ign", [sig...]] ignore signals; ["co"] / ["ce"] close stdout / stderr; ["h", sig, text] on that signal
write text and go on; ["q", sig, code] exit on that signal; ["w", tag] append tag to the log;
["fork", actions] child process doing actions; ["rd"] read standard input to EOF."""
import os, sys, json, time, signal


def log(*a):
    p = os.environ.get("FAKE_LOG")
    if p:
        f = os.open(p, os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o666)
        os.write(f, (json.dumps(a) + "\n").encode())
        os.close(f)


def wr(fd, t):
    b = t.encode("utf-8", "surrogateescape")
    while b:
        n = os.write(fd, b)
        b = b[n:]


def act(script):
    for a in script:
        k = a[0]
        if k == "o":
            wr(1, a[1])
        elif k == "e":
            wr(2, a[1])
        elif k == "s":
            t = time.time() + a[1]
            while time.time() < t:
                time.sleep(max(0, min(.05, t - time.time())))
        elif k == "x":
            log("exit", a[1])
            os._exit(a[1])
        elif k == "k":
            if a[1] != 9:
                signal.signal(a[1], signal.SIG_DFL)
                signal.pthread_sigmask(signal.SIG_UNBLOCK, [a[1]])
            os.kill(os.getpid(), a[1])
        elif k == "ign":
            for s in a[1]:
                signal.signal(s, (lambda sg, f: log("sig", sg)))
        elif k == "h":
            signal.signal(a[1], (lambda t: lambda sg, f: (log("sig", sg), wr(1, t)))(a[2]))
        elif k == "q":
            signal.signal(a[1], (lambda c: lambda sg, f: (log("sig", sg), os._exit(c)))(a[2]))
        elif k == "co":
            os.close(1)
        elif k == "ce":
            os.close(2)
        elif k == "w":
            log(a[1])
        elif k == "rd":
            log("stdin", sys.stdin.read())
        elif k == "fork":
            if os.fork() == 0:
                log("child", os.getpid())
                act(a[1])
                os._exit(0)
        elif k == "big":                # a[1] lines of a[2]
            wr(1, a[2] * a[1])
        elif k == "bige":
            wr(2, a[2] * a[1])


log("argv", sys.argv[1:], os.getpid(), os.path.basename(sys.argv[0]))
act(json.load(open(os.environ["FAKE_SCRIPT"])))
log("exit", 0)
os._exit(0)

import importlib, os, signal, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.path.insert(0, os.path.join(ROOT, 'checks'))
import report


def main():
    pid = sys.argv[1]
    ctx = report.Ctx(pid)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
    except Exception:
        traceback.print_exc(limit=-3)
        if not ctx.viol:
            print('ERROR: the check itself failed')
            return 2
    return ctx.finish()


def guarded():
    """the work is done in a child: code under test that takes the process down
    with it (a bus error on a mapped file, say) has not answered its caller"""
    pid = os.fork()
    if pid == 0:
        rc = 2
        try:
            rc = main()
        except SystemExit as e:
            rc = e.code
        except BaseException:
            traceback.print_exc(limit=-3)
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc if isinstance(rc, int) else 2)

    def stop(sig, frm):
        os.kill(pid, signal.SIGKILL)
        os._exit(2)
    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    _, st = os.waitpid(pid, 0)
    if not os.WIFSIGNALED(st):
        return os.WEXITSTATUS(st)
    sig = os.WTERMSIG(st)
    if sig in (signal.SIGBUS, signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGILL):
        ctx = report.Ctx(sys.argv[1])
        ctx.violation('process.killed', 'the code under test took its process down: ' + signal.Signals(sig).name)
        return ctx.finish()
    print('ERROR: the check was ended by signal %d' % sig)
    return 2


sys.exit(guarded())

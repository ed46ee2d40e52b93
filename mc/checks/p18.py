"""waiting for a job: every moment at which the job's signal may arrive, every sequence of answers of the cluster."""
import importlib.util
import itertools as it
import signal
import sys
import time

from mc import outside

PROPERTY = "P18"
RULE = ("a case is (answers of scontrol to the first wait, answers to the second wait); within it the job's signal is "
        "delivered before every single line the implementation executes (and while it waits), in both waits; "
        "waits of up to 3000 answers with early, late and immediate signals; non-trivial: the signal arrives before the implementation waits for it")
ASSUMPTIONS = ["a job signals once and its signal arrives eventually (at the latest while the process waits for it)",
               "signals are handled between two lines of python; sigwait, alarm, sleep and scontrol are stand-ins",
               "an alarm that goes off while nothing waits for it ends the process (the default action)"]
CASE_TIMEOUT = 300
ANSWERS = {
    "P": ("JobId=4001 JobName=x\n   JobState=PENDING Reason=Resources Dependency=(null)\n", ""),
    "R": ("JobId=4001 JobName=x\n   JobState=RUNNING Reason=None Dependency=(null)\n", ""),
    "G": ("JobId=4001 JobName=x\n   JobState=COMPLETING Reason=None Dependency=(null)\n", ""),
    "F": ("JobId=4001 JobName=x\n   JobState=FAILED Reason=NonZeroExitCode Dependency=(null)\n", ""),
    "C": ("JobId=4001 JobName=x\n   JobState=COMPLETED Reason=None Dependency=(null)\n", ""),
    "N": ("", ""),      # a controller that has nothing to say, yet
    "E": ("", "slurm_load_jobs error: Invalid job id specified\n"),
}


def sequences(longest, middle):
    for first in "PRCE":
        if first == "E":
            yield "E"
            continue
        for n in range(longest + 1):
            for tail in it.product(middle, repeat=n):
                for last in "CE":
                    yield first + "".join(tail) + last


def cases(tier):
    longest, middle = (1, "RG") if tier == "quick" else (3, "RGF")
    for one in sequences(longest, middle):
        for two in ("RC", "RE", "E", "PRC") if tier == "quick" else sequences(1, "R"):
            yield {"one": one, "two": two}
    for one, two in (("NC", "RC"), ("RNC", "NC"), ("PNE", "RNC"), ("RNNC", "E"), ("RNE", "RC")):
        yield {"one": one, "two": two}
    for k in (15, 800, 3000):       # jobs that go on for hours
        for middle in "RG":
            yield {"one": "R" + middle * k + "C", "two": "RC", "long": True}
    yield {"one": "R" * 900 + "E", "two": "P" + "G" * 900 + "C", "long": True}


CODE = []


class Deadlock(BaseException):
    pass


class Killed(BaseException):
    pass


class World:
    """the cluster, the clock and the signals"""

    def __init__(self, module):
        self.module = module
        self.now = 0.0
        self.alarm_at = None
        self.own_handler = False
        self.queue = []
        self.asked = []
        self.signal_left = 0
        self.events = 0
        self.fire_at = None
        self.fired_early = False
        self.waits = 0

    def answer(self, argv, text):
        if argv[0].endswith("scontrol") and argv[1:3] == ["show", "job"]:
            self.asked.append(argv[3])
            if len(self.queue) > 1:
                a = self.queue.pop(0)
            else:
                a = self.queue[0]       # the last answer stays
            self.given = a
            out, err = ANSWERS[a]
            return out, err, 1 if err else 0
        if argv[0].endswith("sacct"):
            return "COMPLETED\n" if self.queue[0] == "C" else "RUNNING\n", "", 0
        return "", "command not found", 127

    def alarm(self, seconds):
        left = 0 if self.alarm_at is None else max(1, round(self.alarm_at - self.now))
        self.alarm_at = self.now + seconds if seconds else None
        return left

    def setitimer(self, which, seconds, interval=0.0):
        self.alarm(seconds)
        return (0.0, 0.0)

    def sleep(self, seconds):
        end = self.now + seconds
        if self.alarm_at is not None and self.alarm_at <= end and not self.own_handler:
            raise Killed()
        self.now = end
        self.ticks = getattr(self, "ticks", 0) + 1
        if self.ticks > 200 + 2 * self.answers:
            raise Deadlock("polls for ever")

    def sigwait(self, which, *args):
        which = set(which)
        self.waits += 1
        if self.signal_left and signal.SIGUSR1 in which:
            self.signal_left -= 1
            return signal.SIGUSR1
        if self.alarm_at is not None and signal.SIGALRM in which:
            self.now, self.alarm_at = max(self.now, self.alarm_at), None
            return signal.SIGALRM
        if self.alarm_at is not None:
            raise Killed()
        raise Deadlock("waits for a signal that has already been delivered")

    def sigtimedwait(self, which, timeout):
        try:
            return self.sigwait(which)
        except Deadlock:
            self.sleep(timeout)
            return None

    def register(self, signum, handler):
        if signum == signal.SIGALRM:
            self.own_handler = callable(handler) or handler == signal.SIG_IGN
        return signal.SIG_DFL

    def deliver(self, frame):
        if self.signal_left:
            self.signal_left -= 1
            self.fired_early = True
            self.module.SIGUSR1_handle(signal.SIGUSR1, frame)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename != self.module.__file__ or frame.f_code.co_name == "SIGUSR1_handle":
            return None
        if event == "line":
            self.events += 1
            if self.events == self.fire_at:
                sys.settrace(None)
                try:
                    self.deliver(frame)
                finally:
                    sys.settrace(self.trace)
        return self.trace


def fresh_module():
    import pibronic.server.job_boss as original
    spec = importlib.util.spec_from_file_location("pibronic.server.job_boss", original.__file__)
    module = importlib.util.module_from_spec(spec)
    if not CODE:
        with open(original.__file__) as file:
            CODE.append(compile(file.read(), original.__file__, "exec"))
    exec(CODE[0], module.__dict__)
    return module


def wait(world, answers, fire_at):
    """one call; returns (outcome, fired before the end)"""
    world.queue, world.answers = list(answers), len(answers)
    world.signal_left, world.events, world.fire_at, world.fired_early, world.ticks = 1, 0, fire_at, False, 0
    if fire_at == 0:
        world.deliver(None)
    sys.settrace(world.trace)
    try:
        world.module.synchronize_with_job(4001)
        outcome = "returned"
    except Deadlock as err:
        outcome = f"never ends: {err}"
    except Killed:
        outcome = "killed by its own alarm"
    except Exception as err:
        outcome = "raised"
    finally:
        sys.settrace(None)
    if outcome in ("returned", "raised"):
        if world.alarm_at is not None and not world.own_handler:
            outcome = "leaves an alarm behind that kills the process"
    return outcome


def expected(answers):
    if answers[0] == "E":
        return "raised"
    return "returned" if "C" in answers[1:] and ("E" not in answers[1:] or answers.index("C", 1) < answers.index("E")) \
        else "raised"


def execute(case, obs):
    saved = {n: getattr(signal, n) for n in ("sigwait", "alarm", "setitimer", "signal", "sigtimedwait")}
    sleep = time.sleep
    try:
        # a long wait: the signal comes before it, or as soon or as late as possible
        for first in (0, 1, 10**9) if case.get("long") else range(0, 400):
            end_first = False
            for second in (0, 10**9) if case.get("long") else range(0, 400):
                world = World(None)
                shell = outside.Shell(world.answer)
                for n, f in (("sigwait", world.sigwait), ("alarm", world.alarm), ("setitimer", world.setitimer),
                             ("signal", world.register), ("sigtimedwait", world.sigtimedwait)):
                    setattr(signal, n, f)
                time.sleep = world.sleep
                world.module = fresh_module()       # sees the stand-ins, however it imports them
                with shell.installed():
                    got = wait(world, case["one"], first)
                    early = world.fired_early
                    last_given = world.given
                    check(obs, case, 1, got, case["one"], last_given, (first, second))
                    if first:
                        end_first = world.events < first
                    got = wait(world, case["two"], second)
                    check(obs, case, 2, got, case["two"], world.given, (first, second))
                    obs.check(set(world.asked) == {"4001"}, "the cluster is asked about the job")
                    finished = second and world.events < second
                obs.step(2)
                obs.trace()
                obs.state(case["one"], case["two"], first, second)
                if early:
                    obs.nontriv(case["one"], case["two"], first, second)
                if finished:
                    break
            if end_first:
                break
    finally:
        for n, f in saved.items():
            setattr(signal, n, f)
        time.sleep = sleep


def check(obs, case, which, got, answers, last_given, points):
    obs.check(got == expected(answers), "waiting ends when the cluster says so, however the signal arrives",
              wait=which, answers=answers, got=got, expected=expected(answers), signal_before_line=points)
    obs.check(last_given == ("C" if got == "returned" else "E"),
              "waiting ends with the answer that decides it", answers=answers, last=last_given)

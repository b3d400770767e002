"""The public interface, decided by the type checker: the crate's library is type-checked under every combination of its
features, and small client programs - one per guarantee - are type-checked against the result."""
import json, os, re, subprocess, itertools
from framework import *
import dump

FEATURES = ("serde", "tokio", "tokio-util", "tokio-test-util")
IMPLIES = {"tokio-util": "tokio", "tokio-test-util": "tokio"}
PRE = "#![allow(unused, path_statements)]\nuse ::std::time::Duration;\nuse ::std::task::{Context, Poll};\nuse ::std::pin::Pin;\nuse ::std::future::Future;\n"


def sets():
    """the distinct effective feature sets, each with the shortest way to ask for it"""
    out = {}
    for n in range(len(FEATURES) + 1):
        for c in itertools.combinations(FEATURES, n):
            eff = frozenset(c) | {IMPLIES[f] for f in c if f in IMPLIES}
            out.setdefault(eff, c)
    return out


T = "fn is<T: %s>() {} is::<%s>();"
ERR = "::std::fmt::Debug + ::std::fmt::Display + ::std::error::Error + 'static"

# (features needed, what holds, client program)
HOLDS = [
    ("", "Instant is a plain value with a total order", T % ("Copy + Clone + Eq + Ord + ::std::fmt::Debug + 'static", "wasmtimer::std::Instant")),
    ("", "Instant::now takes nothing", "let f: fn() -> wasmtimer::std::Instant = wasmtimer::std::Instant::now;"),
    ("", "Instant measures durations", "use wasmtimer::std::Instant; let f: fn(&Instant, Instant) -> Duration = Instant::duration_since; let f: fn(&Instant) -> Duration = Instant::elapsed;"),
    ("", "Instant has checked and saturating differences", "use wasmtimer::std::Instant; let f: fn(&Instant, Instant) -> Option<Duration> = Instant::checked_duration_since; let f: fn(&Instant, Instant) -> Duration = Instant::saturating_duration_since;"),
    ("", "Instant has checked sums", "use wasmtimer::std::Instant; let f: fn(&Instant, Duration) -> Option<Instant> = Instant::checked_add; let f: fn(&Instant, Duration) -> Option<Instant> = Instant::checked_sub;"),
    ("", "Instant has arithmetic operators", "use wasmtimer::std::Instant; fn f(mut a: Instant, b: Instant, d: Duration) { a += d; a -= d; let c: Instant = a + d; let c: Instant = a - d; let e: Duration = a - b; }"),
    ("", "SystemTime is a plain value with a total order", T % ("Copy + Clone + Eq + Ord + ::std::fmt::Debug + 'static", "wasmtimer::std::SystemTime")),
    ("", "SystemTime::now takes nothing", "let f: fn() -> wasmtimer::std::SystemTime = wasmtimer::std::SystemTime::now;"),
    ("", "the epoch is a constant under both its names", "use wasmtimer::std::SystemTime; const A: SystemTime = wasmtimer::std::UNIX_EPOCH; static B: SystemTime = SystemTime::UNIX_EPOCH;"),
    ("", "SystemTime measures durations, failing with its error", "use wasmtimer::std::{SystemTime, SystemTimeError}; let f: fn(&SystemTime, SystemTime) -> Result<Duration, SystemTimeError> = SystemTime::duration_since; let f: fn(&SystemTime) -> Result<Duration, SystemTimeError> = SystemTime::elapsed;"),
    ("", "SystemTimeError tells how far and prints", "use wasmtimer::std::SystemTimeError; let f: fn(&SystemTimeError) -> Duration = SystemTimeError::duration; " + T % ("Clone + ::std::fmt::Debug + ::std::fmt::Display", "SystemTimeError")),
    ("", "SystemTime has checked sums", "use wasmtimer::std::SystemTime; let f: fn(&SystemTime, Duration) -> Option<SystemTime> = SystemTime::checked_add; let f: fn(&SystemTime, Duration) -> Option<SystemTime> = SystemTime::checked_sub;"),
    ("", "SystemTime has arithmetic operators", "use wasmtimer::std::SystemTime; fn f(mut a: SystemTime, d: Duration) { a += d; a -= d; let c: SystemTime = a + d; let c: SystemTime = a - d; }"),

    ("serde", "SystemTime is serialised and read back without borrowing", "fn is<T: serde::Serialize + for<'de> serde::Deserialize<'de>>() {} is::<wasmtimer::std::SystemTime>();"),

    ("tokio", "sleep and sleep_until take a duration and an instant", "use wasmtimer::{std::Instant, tokio::*}; let f: fn(Duration) -> Sleep = sleep; let f: fn(Instant) -> Sleep = sleep_until;"),
    ("tokio", "a sleep is a future of nothing that owns what it needs", "fn is<T: Future<Output = ()> + ::std::fmt::Debug + 'static>() {} is::<wasmtimer::tokio::Sleep>();"),
    ("tokio", "a sleep tells its deadline and whether it has elapsed", "use wasmtimer::{std::Instant, tokio::*}; let f: fn(&Sleep) -> Instant = Sleep::deadline; let f: fn(&Sleep) -> bool = Sleep::is_elapsed;"),
    ("tokio", "a pinned sleep can be reset", "use wasmtimer::{std::Instant, tokio::*}; fn f(s: Pin<&mut Sleep>, t: Instant) { s.reset(t) }"),
    ("tokio", "interval and interval_at take a period, and a start", "use wasmtimer::{std::Instant, tokio::*}; let f: fn(Duration) -> Interval = interval; let f: fn(Instant, Duration) -> Interval = interval_at;"),
    ("tokio", "an interval owns what it needs", T % ("::std::fmt::Debug + 'static", "wasmtimer::tokio::Interval")),
    ("tokio", "an interval's tick is a future of an instant", "use wasmtimer::{std::Instant, tokio::*}; fn f(i: &mut Interval) -> impl Future<Output = Instant> + '_ { i.tick() }"),
    ("tokio", "an interval can be polled", "use wasmtimer::{std::Instant, tokio::*}; fn f(i: &mut Interval, c: &mut Context<'_>) -> Poll<Instant> { i.poll_tick(c) }"),
    ("tokio", "an interval can be reset, and tells its period and behaviour", "use wasmtimer::tokio::*; let f: fn(&mut Interval) = Interval::reset; let f: fn(&Interval) -> Duration = Interval::period; let f: fn(&Interval) -> MissedTickBehavior = Interval::missed_tick_behavior; let f: fn(&mut Interval, MissedTickBehavior) = Interval::set_missed_tick_behavior;"),
    ("tokio", "there are exactly three missed-tick behaviours", "use wasmtimer::tokio::MissedTickBehavior::{self, *}; fn f(b: MissedTickBehavior) -> u8 { match b { Burst => 0, Delay => 1, Skip => 2 } }"),
    ("tokio", "a missed-tick behaviour is a plain value with a default", T % ("Copy + Clone + Eq + Default + ::std::fmt::Debug", "wasmtimer::tokio::MissedTickBehavior")),
    ("tokio", "any future can be given a timeout, borrowed ones and ones that stay on a thread too", "use wasmtimer::{std::Instant, tokio::*}; fn f<'a, F: Future + 'a>(x: F, y: F, d: Duration, t: Instant) -> (Timeout<F>, Timeout<F>) { (timeout(d, x), timeout_at(t, y)) }"),
    ("tokio", "a timeout is a future of the output or the elapsed error", "use wasmtimer::tokio::{Timeout, error::Elapsed}; fn is<F: Future, T: Future<Output = Result<F::Output, Elapsed>>>() {} fn f<F: Future>() { is::<F, Timeout<F>>() }"),
    ("tokio", "a timeout gives access to its future", "use wasmtimer::tokio::Timeout; fn f<F: Future>(mut t: Timeout<F>) -> F { let _: &F = t.get_ref(); let _: &mut F = t.get_mut(); t.into_inner() }"),
    ("tokio", "the elapsed error is an error and compares", T % (ERR + " + Eq", "wasmtimer::tokio::error::Elapsed")),
    ("tokio", "the elapsed error converts to an I/O error", "fn f(e: wasmtimer::tokio::error::Elapsed) -> ::std::io::Error { e.into() }"),

    ("tokio-util", "a delay queue has one type under both its paths", "fn f<T>(q: wasmtimer::tokio_util::DelayQueue<T>) -> wasmtimer::tokio_util::delay_queue::DelayQueue<T> { q }"),
    ("tokio-util", "a delay queue holds any type", "use wasmtimer::tokio_util::DelayQueue; fn f<T>() { let f: fn() -> DelayQueue<T> = DelayQueue::new; let f: fn(usize) -> DelayQueue<T> = DelayQueue::with_capacity; let q: DelayQueue<T> = Default::default(); }"),
    ("tokio-util", "a delay queue prints when what it holds does", "fn is<T: ::std::fmt::Debug>() {} fn f<T: ::std::fmt::Debug>() { is::<wasmtimer::tokio_util::DelayQueue<T>>() }"),
    ("tokio-util", "a delay queue takes items by duration and by instant", "use wasmtimer::{std::Instant, tokio_util::delay_queue::*}; fn f<T>() { let f: fn(&mut DelayQueue<T>, T, Duration) -> Key = DelayQueue::insert; let f: fn(&mut DelayQueue<T>, T, Instant) -> Key = DelayQueue::insert_at; }"),
    ("tokio-util", "a delay queue gives items back by key", "use wasmtimer::tokio_util::delay_queue::*; fn f<T>() { let f: fn(&mut DelayQueue<T>, &Key) -> Expired<T> = DelayQueue::remove; let f: fn(&mut DelayQueue<T>, &Key) -> Option<Expired<T>> = DelayQueue::try_remove; }"),
    ("tokio-util", "a delay queue resets deadlines by key", "use wasmtimer::{std::Instant, tokio_util::delay_queue::*}; fn f<T>() { let f: fn(&mut DelayQueue<T>, &Key, Duration) = DelayQueue::reset; let f: fn(&mut DelayQueue<T>, &Key, Instant) = DelayQueue::reset_at; }"),
    ("tokio-util", "a delay queue tells and changes its size", "use wasmtimer::tokio_util::delay_queue::*; fn f<T>() { let f: fn(&DelayQueue<T>) -> usize = DelayQueue::len; let f: fn(&DelayQueue<T>) -> usize = DelayQueue::capacity; let f: fn(&DelayQueue<T>) -> bool = DelayQueue::is_empty; let f: fn(&mut DelayQueue<T>) = DelayQueue::clear; let f: fn(&mut DelayQueue<T>) = DelayQueue::compact; let f: fn(&mut DelayQueue<T>) = DelayQueue::shrink_to_fit; let f: fn(&mut DelayQueue<T>, usize) = DelayQueue::reserve; }"),
    ("tokio-util", "a delay queue can be polled", "use wasmtimer::tokio_util::delay_queue::*; fn f<T>(q: &mut DelayQueue<T>, c: &mut Context<'_>) -> Poll<Option<Expired<T>>> { q.poll_expired(c) }"),
    ("tokio-util", "a delay queue is a stream of expired items", "fn is<T, S: futures::Stream<Item = wasmtimer::tokio_util::delay_queue::Expired<T>>>() {} fn f<T>() { is::<T, wasmtimer::tokio_util::DelayQueue<T>>() }"),
    ("tokio-util", "an expired item gives access to all it carries", "use wasmtimer::{std::Instant, tokio_util::delay_queue::*}; fn f<T>(mut e: Expired<T>) -> T { let _: &T = e.get_ref(); let _: &mut T = e.get_mut(); let _: Instant = e.deadline(); let _: Key = e.key(); e.into_inner() }"),
    ("tokio-util", "a key is a plain value that can be looked up", T % ("Copy + Clone + Eq + ::std::hash::Hash + ::std::fmt::Debug + 'static", "wasmtimer::tokio_util::delay_queue::Key")),

    ("tokio-test-util", "the clock can be paused, resumed and advanced", "use wasmtimer::tokio::*; let f: fn() = pause; let f: fn() = resume; fn f(d: Duration) -> impl Future<Output = ()> + 'static { advance(d) }"),
]

# (features under which it is tried, features that would make it legal, what a client cannot do, client program, error codes)
FAILS = [
    ("", "", "reach the host bindings", "#[allow(unused_imports)] use wasmtimer::js::*;", "E0603 E0432 E0433"),
    ("", "", "make an instant out of a duration", "fn f(x: wasmtimer::std::Instant) { let _ = wasmtimer::std::Instant { ..x }; }", "E0451"),
    ("", "", "make a system time from raw milliseconds", "fn f(x: wasmtimer::std::SystemTime) { let _ = wasmtimer::std::SystemTime { ..x }; }", "E0451"),
    ("", "tokio", "use timers without the feature", "let _ = wasmtimer::tokio::sleep(Duration::ZERO);", "E0433 E0432"),
    ("tokio", "tokio-util", "use the delay queue without the feature", "let _ = wasmtimer::tokio_util::DelayQueue::<u8>::new();", "E0433 E0432"),
    ("tokio", "tokio-test-util", "pause the clock without the feature", "wasmtimer::tokio::pause();", "E0425 E0432 E0433"),
    ("tokio", "tokio-test-util", "resume the clock without the feature", "wasmtimer::tokio::resume();", "E0425 E0432 E0433"),
    ("tokio", "tokio-test-util", "advance the clock without the feature", "let _ = wasmtimer::tokio::advance(Duration::ZERO);", "E0425 E0432 E0433"),
    ("tokio", "", "reach the timer", "#[allow(unused_imports)] use wasmtimer::timer::*;", "E0603 E0432 E0433"),
    ("tokio", "", "reset a sleep through a shared reference", "fn f(s: &wasmtimer::tokio::Sleep, t: wasmtimer::std::Instant) { s.reset(t); Pin::new(s).reset(t) }", "E0599 E0308"),
    ("tokio", "", "duplicate a sleep", "fn is<T: Clone>() {} is::<wasmtimer::tokio::Sleep>();", "E0277"),
    ("tokio", "", "wait for two ticks of an interval at once", "fn f(i: &mut wasmtimer::tokio::Interval) { let a = i.tick(); let b = i.tick(); drop((a, b)); }", "E0499"),
    ("tokio", "", "claim that a timeout elapsed", "fn f(x: wasmtimer::tokio::error::Elapsed) { let _ = wasmtimer::tokio::error::Elapsed { ..x }; }", "E0451"),
    ("tokio", "", "make an interval from parts", "fn f(x: wasmtimer::tokio::Interval) { let _ = wasmtimer::tokio::Interval { ..x }; }", "E0451"),
    ("tokio-util", "", "make an expired item", "fn f(x: wasmtimer::tokio_util::delay_queue::Expired<u8>) { let _ = wasmtimer::tokio_util::delay_queue::Expired { ..x }; }", "E0451"),
    ("tokio-util", "", "make a queue from parts", "fn f(x: wasmtimer::tokio_util::DelayQueue<u8>) { let _ = wasmtimer::tokio_util::DelayQueue { ..x }; }", "E0451"),
    ("tokio", "", "get an elapsed error from nowhere", "fn is<T: Default>() {} is::<wasmtimer::tokio::error::Elapsed>();", "E0277"),
    ("tokio", "", "build a timeout around the clock", "fn f<F>(x: wasmtimer::tokio::Timeout<F>) { let _ = wasmtimer::tokio::Timeout { ..x }; }", "E0451"),
    ("tokio-util", "", "forge a key", "fn f(x: wasmtimer::tokio_util::delay_queue::Key) { let _ = wasmtimer::tokio_util::delay_queue::Key { ..x }; }", "E0451"),
    ("tokio-util", "", "make a key from an index", "fn is<T: From<usize>>() {} is::<wasmtimer::tokio_util::delay_queue::Key>();", "E0277"),
    ("tokio-util", "", "forge an expired item's key by default", "fn is<T: Default>() {} is::<wasmtimer::tokio_util::delay_queue::Key>();", "E0277"),
    ("tokio-util", "", "duplicate a delay queue", "fn is<T: Clone>() {} is::<wasmtimer::tokio_util::DelayQueue<u8>>();", "E0277"),
    ("tokio-util", "", "change a queue through a shared reference", "fn f(q: &wasmtimer::tokio_util::DelayQueue<u8>) { q.insert(0, Duration::ZERO); }", "E0596"),
    ("tokio-util", "", "reach the timing wheel", "use wasmtimer::tokio_util::wheel;", "E0603 E0432"),
]


def name(eff):
    return ", ".join(f for f in FEATURES if f in eff) or "none"


def client(a, src, out):
    """type-check a client program against one build of the library -> [(line, error code, message)]"""
    with open(out + ".rs", "w") as f:
        f.write(src)
    cmd = ["rustc", "+nightly", "--edition", "2021", "--crate-type", "lib", "--crate-name", "client", "--emit=metadata", "--error-format=json", "-Awarnings",
           "-o", out + ".rmeta"]
    for d in a["deps"]:
        cmd += ["-L", "dependency=" + d]
    for n in ("wasmtimer", "futures", "serde"):
        if n in a["libs"]:
            cmd += ["--extern", "%s=%s" % (n, a["libs"][n])]
    r = subprocess.run(cmd + [out + ".rs"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    errs = []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") == "error" and m.get("spans"):
            sp = [x for x in m["spans"] if x["is_primary"] and x["file_name"] == out + ".rs"] or [x for x in m["spans"] if x["file_name"] == out + ".rs"]
            errs.append((sp[0]["line_start"] if sp else 0, (m.get("code") or {}).get("code"), m["message"]))
    if r.returncode and not errs:
        errs.append((0, None, r.stderr[-500:]))
    return errs


BUILT = {}


def built():
    """every effective feature set -> the library's build, or the compiler's complaint"""
    if not BUILT:
        for eff, ask in sets().items():
            BUILT[eff] = dump.library(ask)
    return BUILT


@rule("api.builds", "C33", "the library type-checks under every combination of its features, without what only the tests' dependencies switch on", only=True)
def builds(o):
    o.sites.add("Cargo.toml")
    for eff, a in built().items():
        o.need("error" not in a, "the library builds with features: %s" % name(eff), a.get("where", ""), a.get("error", ""))


NOISE = [(re.compile(r"DefId\(\d+:\d+"), "DefId("), (re.compile(r"\[[0-9a-f]{4}\]"), ""), (re.compile(r"\balloc\d+\b"), "alloc")]


def versions(a):
    """body of the crate -> (what it is, where)"""
    out = {}
    for l in open(a["bodies"]):
        path, text, at = l.rstrip("\n").split("\t")
        for rx, to in NOISE:
            text = rx.sub(to, text)
        out.setdefault(path, []).append((text, at))
    return out


@rule("api.same", "C36", "under every combination of features each function is what it is in the build that all other rules analyse: the one with default features, or the one with all of them when the test hooks are on", only=True)
def same(o):
    have = {eff: versions(a) for eff, a in built().items() if "error" not in a}
    main = [frozenset(("tokio", "tokio-util")), frozenset(("tokio", "tokio-util", "tokio-test-util", "serde"))]
    for eff in main:
        if not o.need(eff in have, "the library builds with features: %s" % name(eff)):
            return
    plain, test = ({path: {t for t, _ in vs} for path, vs in have[eff].items()} for eff in main)
    other = {path for path, vs in test.items() if plain.get(path) != vs}
    asks, todo = set(), {"timer::clock::"}
    while todo:
        new = {p for p in other - asks if any(re.search(re.escape(a) + r"(?![\w])" if a[-1] != ":" else re.escape(a), t) for t in test[p] for a in todo)}
        asks |= new
        todo = {p for p in new if "::" in p and not p.startswith("<")}
    for path in other:
        o.need(path not in plain or path in asks, "%s differs with the test hooks only by what it asks their clock" % path)
    n = 0
    for eff, fs in have.items():
        for path, vs in fs.items():
            o.fns.setdefault(path, 0)
            ok = test.get(path) or plain.get(path, ()) if "tokio-test-util" in eff else plain.get(path) or test.get(path, ())
            if "serde" in eff and "tokio-test-util" not in eff:
                ok = set(ok) | test.get(path, set())
            for t, at in vs:
                n += 1
                o.need(t in ok, "%s is its analysed version" % path, at, "with features: " + name(eff))
    o.need(n >= 1000, "bodies were compared", "", str(n))


BINDING = re.compile(r"__wb|_Section|_CHUNK|_INCLUDED|_GENERATED|^const js::_:|^(fn|const|static) js::_::")


def printed(path):
    """item of the crate -> its bodies, as the compiler prints them, without what depends on the target's width alone"""
    out, cur, buf = {}, None, []
    for l in open(path):
        l = l.rstrip("\n")
        if cur is None:
            if re.match(r"(fn|const|static|unsafe|async|extern)\b", l):
                if l.endswith("{"):
                    cur, buf = l, []
                else:
                    out.setdefault(l, []).append("")
        elif l == "}":
            out.setdefault(cur, []).append("\n".join(buf))
            cur = None
        else:
            l = re.sub(r"\balloc\d+\b", "alloc", re.sub(r"\s*//.*$", "", l))
            l = re.sub(r"(= Lt\((?:move|copy) _\d+, const )(64|32)_u32\)", r"\1BITS_u32)", l)     # a shift by less than the width
            l = re.sub(r"(?:<[^<>]*>|[\w:])*::(__wbg_\w+)", r"\1", l)
            buf.append(l)
    return {k: sorted(v) for k, v in out.items() if not BINDING.search(k)}


@rule("api.target", "C36", "each function is for wasm32 what it is for the host, whose build all other rules analyse, but for the bindings to the host's functions", only=True)
def target(o):
    n = 0
    for features in (("tokio-util",), ("tokio-util", "tokio-test-util", "serde")):
        host, wasm = (printed(dump.mir_text(features, t)) for t in (dump.HOST, dump.WASM))
        for k in sorted(set(host) | set(wasm)):
            o.fns.setdefault(k, 0)
            n += 1
            a, b = host.get(k), wasm.get(k)
            d = [(x, y) for x, y in zip("\n".join(a or ()).splitlines(), "\n".join(b or ()).splitlines()) if x != y][:1]
            o.need(a == b, "%s is for wasm32 what it is for the host" % k[:120], "", "with features: %s; %s" % (", ".join(features), "not for the host" if a is None else "not for wasm32" if b is None else d))
    o.need(n >= 500, "bodies were compared", "", str(n))


@rule("api.offers", "C33", "client programs that use each documented item at its documented type, kept as general as the documentation promises, type-check under every combination of features that includes it", only=True)
def offers(o):
    d = os.path.join(dump.CACHE, "api")
    os.makedirs(d, exist_ok=True)
    n = 0
    for eff, a in built().items():
        if "error" in a:
            continue
        lines, at = PRE.splitlines(), {}
        for need, what, src in HOLDS:
            if not need or need in eff:
                lines.append("fn w%d() { %s }" % (len(at), src))
                at[len(lines)] = what
        errs = client(a, "\n".join(lines) + "\n", os.path.join(d, "holds-" + "-".join(sorted(eff))))
        bad = {}
        for l, c, m in errs:
            bad.setdefault(at.get(l, "the client programs are well formed"), "%s %s" % (c, m))
        for what in at.values():
            o.need(what not in bad, what, "with features: " + name(eff), bad.get(what, ""))
            n += 1
        for what in set(bad) - set(at.values()):
            o.need(False, what, "with features: " + name(eff), bad[what])
    o.need(n >= 250, "all client programs were tried", "", str(n))


@rule("api.refuses", "C33", "client programs that would get around a guarantee (forge keys or errors, duplicate sleeps, use test hooks without their feature) do not type-check, for the reason expected", only=True)
def refuses(o):
    from concurrent.futures import ThreadPoolExecutor
    d = os.path.join(dump.CACHE, "api")
    os.makedirs(d, exist_ok=True)
    todo = []
    for eff, a in built().items():
        for k, (need, unless, what, src, codes) in enumerate(FAILS):
            if "error" not in a and (not need or need in eff) and not (unless and unless in eff):
                todo.append((eff, a, what, PRE + "fn w() { %s }\n" % src, codes.split(), os.path.join(d, "fails-%d-%s" % (k, "-".join(sorted(eff))))))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda t: client(t[1], t[3], t[5]), todo))
    for (eff, a, what, src, codes, _), errs in zip(todo, res):
        ok = o.need(bool(errs), "a client cannot %s" % what, "with features: " + name(eff), src)
        if ok:
            o.need(all(c in codes for _, c, _ in errs), "a client is refused for the reason expected: " + what, "with features: " + name(eff), str(errs))
    o.need(len(todo) >= 100, "all refused programs were tried", "", str(len(todo)))

"""What is built from what, and which engine decides which property."""
BASE = ("-std=c++17 -O2 -g1 -fno-omit-frame-pointer -Wall -Wno-unused-function -DROTOR_STATIC_DEFINE -DROTOR_ASIO_STATIC_DEFINE "
        "-DROTOR_EV_STATIC_DEFINE -DROTOR_THREAD_STATIC_DEFINE -DROTOR_WX_STATIC_DEFINE -DROTOR_FLTK_STATIC_DEFINE "
        "-DBOOST_ASIO_DISABLE_EPOLL -DBOOST_ASIO_DISABLE_THREAD_KEYWORD_EXTENSION "
        "-I@VERIF@/thr/shim -I@VERIF@/mc -I@VERIF@/gen -I@REPO@/include -fno-pie ")
LINK = "-no-pie -lboost_date_time -lboost_system -lpthread "
CORE_LIB = ["src/rotor/*.cpp", "src/rotor/plugin/*.cpp", "src/rotor/detail/*.cpp", "src/rotor/misc/*.cpp"]

THR = ["thr/sched.cpp", "thr/norace.cpp", "mc/mc.cpp"]
TOWN = "-I@VERIF@/thr -I@VERIF@/bw "

WX = "-I/usr/lib/x86_64-linux-gnu/wx/include/gtk3-unicode-3.2 -I/usr/include/wx-3.2 -D_FILE_OFFSET_BITS=64 -DWXUSINGDLL -D__WXGTK__ -DwxUSE_GUI=0 "

ENGINES = {
    "coreasan": dict(lib=CORE_LIB, src=["core/*.cpp", "mc/mc.cpp", "thr/stub.cpp", "thr/norace.cpp"], flags=BASE + "-fsanitize=address ", ownflags="-I@VERIF@/thr ", link=LINK + "-fsanitize=address"),
    "core": dict(lib=CORE_LIB, src=["core/*.cpp", "mc/mc.cpp", "thr/stub.cpp", "thr/norace.cpp"], flags=BASE, ownflags="-I@VERIF@/thr ", link=LINK),
    "thread": dict(lib=CORE_LIB + ["src/rotor/thread/*.cpp"], src=["thread/*.cpp"] + THR, flags=BASE, ownflags=TOWN, link=LINK + "-ldl"),
    "ev": dict(lib=CORE_LIB + ["src/rotor/ev/*.cpp"], src=["ev/*.cpp"] + THR, flags=BASE, ownflags=TOWN, link=LINK + "-ldl"),
    "fltk": dict(lib=CORE_LIB + ["src/rotor/fltk/*.cpp"], src=["fltk/*.cpp"] + THR, flags=BASE, ownflags=TOWN, link=LINK + "-ldl"),
    "wx": dict(lib=CORE_LIB + ["src/rotor/wx/*.cpp"], src=["wx/*.cpp"] + THR, flags=BASE + WX, ownflags=TOWN, link=LINK + "-lwx_baseu-3.2 -ldl"),
    "asio": dict(lib=CORE_LIB + ["src/rotor/asio/*.cpp"], src=["asio/*.cpp"] + THR, flags=BASE, ownflags=TOWN, link=LINK + "-ldl"),
}

# the same engines, where every memory access of the library is examined by the happens-before race detector (thr/race.cpp)
for _n in ("core", "thread", "ev", "asio", "fltk", "wx"):
    _e = ENGINES[_n]
    _e["ownonly"] = '-DBW_ENGINE=\'"%s"\' ' % _n
    ENGINES[_n + "rc"] = dict(lib=_e["lib"], src=["core/*.cpp"] if _n == "core" else [_n + "/*_backend.cpp"],
                              raw=["mc/mc.cpp", "thr/race.cpp"] + (["thr/stub.cpp"] if _n == "core" else [_n + "/fake_*.cpp", "thr/sched.cpp"]),
                              link=_e["link"], cxx="clang++", flags=_e["flags"], libflags="-fsanitize=thread ", ownflags=_e["ownflags"],
                              ownonly='-DBW_RACE -DBW_ENGINE=\'"%src"\' ' % _n + "-fsanitize=thread -mllvm -tsan-instrument-memory-accesses=0 "
                              "-mllvm -tsan-instrument-memintrinsics=0 -mllvm -tsan-instrument-func-entry-exit=0 ")
# the core engine, where every delivery is inspected and dumped with the highest verbosity
ENGINES["coreinsp"] = dict(ENGINES["core"], ownonly='-DBW_INSPECT -DBW_ENGINE=\'"coreinsp"\' ')
ENGINES["coreasan"]["ownonly"] = '-DBW_ENGINE=\'"coreasan"\' '

A_CORE = [
    "event loops are modelled by the harness supervisor (core/world.hpp): a message of another loop is appended to the inbox of the loop of its destination, "
    "the loop processes one message or its whole inbox at a time, timers fire from the loop and never before their deadline in virtual time",
    "actor code of the library itself is single-threaded per event loop, so interleaving at message granularity (and at the moment of sending) is complete",
    "asserts are enabled and AddressSanitizer instruments library and harness; wall clock (gettimeofday) is virtual",
]

PROPERTIES = {
    "P01": dict(engines=["core"], assumptions=A_CORE),
    "P02": dict(engines=["core"], assumptions=A_CORE),
}
for _p in ("P25", "P16", "P15", "P13", "P14", "P03", "P04", "P05", "P11", "P12", "P06", "P07", "P08", "P09", "P24"):
    PROPERTIES[_p] = dict(engines=["core"], assumptions=A_CORE)
PROPERTIES["P17"] = dict(engines=["core", "coreasan"], assumptions=A_CORE)
PROPERTIES["P10"] = dict(engines=["core"], assumptions=A_CORE)

A_THR = [
    "threads are fibers of a controlled scheduler: every lock, condition variable, inbound queue, sleep and clock operation of the library is a scheduling point, "
    "interleavings between them (data races at the level of memory accesses) are not explored",
    "time is virtual; deviations let time pass up to the next deadline while threads are able to run",
]
PROPERTIES["P18"] = dict(engines=["thread"], assumptions=A_THR)
PROPERTIES["P19"] = dict(engines=["thread"], assumptions=A_THR)
PROPERTIES["P20"] = dict(engines=["ev"], assumptions=A_THR + [
    "libev itself is replaced (at link time) by a single-threaded model of ev_loop, ev_async and ev_timer: timers are relative to the cached time of the loop, "
    "asynchronous wake-ups coalesce, in one iteration timers or asynchronous watchers are invoked first (both are explored)",
])
PROPERTIES["P21"] = dict(engines=["asio"], assumptions=A_THR + [
    "the real Boost.Asio (select reactor) is executed; the handlers of the io contexts and of the strands are interleaved at their boundaries, locks inside of Boost are "
    "not scheduling points",
])
PROPERTIES["P22"] = dict(engines=["wx"], assumptions=A_THR + [
    "events and event handlers are the real ones of wxWidgets, wxTimer and the queue of pending events are replaced by a model: events of one handler are processed in "
    "their order, handlers and expired timers in any order",
])
PROPERTIES["P23"] = dict(engines=["fltk"], assumptions=A_THR + [
    "FLTK is replaced (at link time) by a model of its timeouts, awake ring and pipe, checks and lock; the application processes the queues of its supervisors "
    "after every Fl::wait(), as the examples do; the awake ring is never full",
])
for _p in ("P01", "P02", "P05", "P08", "P24"):
    PROPERTIES[_p] = dict(engines=["core", "thread"], assumptions=A_CORE + A_THR)
A_RACE = [
    "happens-before race detection on the memory accesses of the compiled library (clang instruments its translation units; templates instantiated only by the harness are "
    "not examined), the edges are mutexes, condition variables, atomics, the lock-free inbound queue, the wake-ups of the libraries below, and messages between event loops; "
    "fences are not modelled",
]
PROPERTIES["P27"] = dict(engines=["coreinsp"], assumptions=A_CORE + ["std::cout is replaced by a line counter"], budget=dict(quick=330, thorough=2400))
PROPERTIES["P26"] = dict(engines=["evrc", "fltkrc", "wxrc", "threadrc", "asiorc", "corerc"], assumptions=A_THR + A_CORE + A_RACE, budget=dict(quick=330, thorough=2400))
for _p, _n in (("P18", "thread"), ("P19", "thread"), ("P20", "ev"), ("P21", "asio"), ("P22", "wx"), ("P23", "fltk")):
    PROPERTIES[_p] = dict(engines=[_n, _n + "rc"], assumptions=PROPERTIES[_p]["assumptions"] + A_RACE, budget=dict(quick=330, thorough=2400))

"""Per-property settings of check.py: simulator, run counts (quick, thorough), evidence texts."""

REAL = ["every mathlib template instantiated from /repo/libs/mathlib/include for float and double", "libm", "libstdc++"]
OPS_STUBS = ["thread scheduler (baton over real threads, preemption at any non-stack access)", "malloc / operator new", "rand / srand and other entropy and clock calls", "mutex, once and guard primitives (simulated waits)"]
OPS_RULE = ("run i = generate(seed, i): a seeded plan of calls from the operation table, operand pool, memory environment, schedule and faults; "
            "distinct = different hash of (operations, operands, faults and scheduling decisions actually taken); every run executes at least one library call compared with its reference")
OPS_ASSUME = ["scheduling points are the memory accesses of library code outside the thread's own stack, allocator calls and synchronisation calls; register-only stretches are atomic",
              "library code is compiled by clang at -O0 for these runs, so accesses an optimiser would merge are all visible",
              "sampling: a clean batch is evidence, not proof"]


def ops(quick, thorough, expect=()):
    return dict(kind="ops", runs=(quick, thorough), rule=OPS_RULE, real=REAL, stubs=OPS_STUBS, assume=OPS_ASSUME, expect=list(expect))


PROPS = {
    "C01": ops(24000, 400000, ["preemptions at chosen accesses", "calls compared with their solo reference"]),
    "C02": ops(24000, 400000, ["re-entrant calls nested inside a suspended call", "threads killed inside a call"]),
    "C03": ops(24000, 400000, ["runs with write-protected operands"]),
    "C04": ops(24000, 400000, ["failed allocations", "retries after a failure"]),
    "C05": ops(24000, 400000, ["runs with poisoned stack, heap and outputs", "runs with strided operands", "operands placed against unmapped pages"]),
    "C06": ops(16000, 250000, ["repeated calls", "failed calls in the history"]),
    "C08": ops(60000, 1500000, ["random draws delivered", "stuck or scripted draw segments"]),
    "C09": ops(60000, 1500000, ["stuck or scripted draw segments"]),
    "C10": ops(24000, 400000, ["re-seedings", "clock and entropy sources re-valued"]),
    "C07": dict(kind="siof", runs=(16000, 250000), real=["every named constant and the calls that use them, from /repo/libs/mathlib/include, compiled by gcc and clang at -O0 and -O2 into real programs of five units", "libm", "libstdc++", "the C runtime's destructor list"],
        stubs=["the loader's order of static initialisers: initialisers are moved out of .init_array and called in a seeded order"],
        rule="run i = generate(seed, i): compiler configuration, order of all initialisers, and bursts of uses made by static objects while they are built or destroyed; distinct = different hash of all of these; every run compares the elements of every constant",
        assume=["x86-64 Linux with the two installed compilers", "the standard allows any order of the initialisers of different units and of template statics; orders within one unit are the compiler's", "sampling: a clean batch is evidence, not proof"],
        tick="1 tick = 1 use evaluated", expect=["bursts from static destructors", "bursts on a thread started by an initialiser"]),
}

HIST_ASSUME = ["the library is compiled by clang at -O1 without contraction for these runs", "rounding is bounded per step against a long double reference; a change smaller than that bound is not seen", "sampling: a clean batch is evidence, not proof"]


def hist(quick, thorough, what, stubs, expect, tick="1 tick = 1 ms of the simulated clock"):
    return dict(kind="hist", runs=(quick, thorough), real=REAL, stubs=stubs, assume=HIST_ASSUME, expect=list(expect), tick=tick,
                rule="run i = generate(seed, i): " + what + "; distinct = different hash of the kinds and shapes of the steps taken; every run compares library results with the reference after its steps")


PROPS.update({
    "C11": hist(300000, 3000000, "walkers on curves with a seeded history of steps, pauses, checkpoints, crashes, restores and switches", ["process crash and restart (only checkpoints survive)", "thread hand-over"], ["crashes", "restores", "walks resumed on another thread", "rebuilds by walking again"], "1 tick = 1 step of a walker"),
    "C12": hist(300000, 3000000, "point sets delivered to replicas reordered, duplicated, batched, lost with crashes and rebuilt", ["the network that delivers the points", "process crash and restart"], ["duplicate deliveries", "reordered batches", "strided batches", "crashes", "rebuilds by state transfer from a peer"], "1 tick = 1 point delivered"),
    "C13": hist(300000, 3000000, "followers updated by a stalling, jumping clock, retargeted, crashed and restored", ["clock", "process crash and restart"], ["clock steps backwards", "crashes with restore from a checkpoint", "updates from (nearly) opposite to the target", "arrivals checked after the allowed angles added up"]),
    "C14": hist(300000, 3000000, "animations sampled by a coarse, stalled or jumping clock, with restarts", ["clock", "process crash and restart"], ["backward clock steps", "stalled readings", "forward clock jumps", "restarts", "readings within ulps of a special point"]),
    "C15": hist(300000, 3000000, "a log of rotations applied by replicas of every representation one by one, batched, after crashes with rebuild by conversion", ["process crash and restart", "the log delivery"], ["crashes with rebuild by conversion", "batches", "replicas passed through storage", "quaternion sign flips", "repeated conversions there and back"], "1 tick = 1 element logged"),
    "C16": hist(300000, 3000000, "histories of elementary transforms, transforms by transforms, undo, inversion, checkpoints and rollbacks", ["process crash and restart"], ["steps undone by their inverse", "inversions", "rollbacks to a checkpoint", "points returned by an undo or inversion"], "1 tick = 1 element logged"),
    "C17": hist(300000, 3000000, "histories of every mutation of the four matrix types, near and away from the tolerances, with storage round trips and reloads", ["process crash and restart"], ["states near a tolerance", "reloads of a checkpoint", "casts to and from storage", "operations compared with a freshly built matrix"], "1 tick = 1 element logged"),
    "C18": hist(300000, 3000000, "bodies bounded by boxes, centred boxes, spheres and circles that move, scale, grow, merge, clip, change representation, undo, crash and restore", ["process crash and restart"], ["crashes with restore", "steps undone", "conversions", "touching pairs", "answers at a boundary", "intersections of disjoint boxes"], "1 tick = 1 operation"),
    "C25": hist(300000, 3000000, "timers, clamped accumulators, response sticks and dials stepped by a stalling, jumping clock, crashed and restored", ["clock", "process crash and restart"], ["backward clock steps", "forward clock jumps", "advances to beside a multiple of the period", "crashes with restore", "arguments beyond one"]),
    "C19": hist(300000, 3000000, "headings kept as wrapped angles, vectors and 2x2 matrices that turn, mirror, interpolate, compose, fail over, crash and restore", ["process crash and restart"], ["crashes with restore", "replicas rebuilt from another", "turns towards the opposite", "strided mappings"], "1 tick = 1 operation"),
    "C22": hist(300000, 3000000, "Bezier pieces split and converted repeatedly and splines rebuilt as way points arrive late, twice or after a crash", ["message order", "message duplication", "process crash and restart"], ["way points delivered late", "way points replaced", "crashes with restore", "splits at an end", "splines through two points"]),
    "C24": hist(300000, 3000000, "lights kept as RGB, RGBA and HSV replicas faded, mixed, crashed and rebuilt from each other", ["process crash and restart", "replica loss"], ["replicas rebuilt", "crashes with restore", "hues beside a sector boundary", "hues outside a turn", "fades across hue zero"]),
    "C26": hist(300000, 3000000, "a camera that turns, moves, zooms, splits into tiles and restarts while points and spheres are culled, and planes that move and flip", ["process crash and restart"], ["points beside a face", "frustums split into tiles", "planes flipped", "crashes with restore"]),
    "C21": hist(300000, 3000000, "projectiles that fly in time slices among drifting boxes, balls, walls and triangles, with rays, distances and pairs of bodies", ["process crash and restart"], ["time slices flown", "boxes entered by rays", "boxes entered by segments", "balls entered", "walls crossed over two slices", "crashes with restore"]),
    "C23": hist(150000, 1500000, "implicit time steps of conducting rods, rings and networks with link failures, flows, shuffled and rescaled equations, singular systems", ["process crash and restart", "cut links", "equations delivered in any order"], ["rods solved", "rings solved", "networks solved", "singular systems", "links cut", "crashes with restore"]),
    "C27": hist(150000, 2000000, "cells of every type written by member, view and coordinate, recorded in journals that tear, restored after crashes, cast and compared", ["torn record", "process crash and restart"], ["values written through a data view", "records torn", "casts", "comparisons that differ in one element"]),
    "C29": hist(150000, 2000000, "key frames set from axes, matrices and directions, played at ratios of a faulty clock, chased by a camera that crashes", ["clock stalls, jumps and steps backwards", "process crash and restart"], ["ratios at the very ends", "key frames half a turn apart", "results written over an operand", "crashes with restore"]),
    "C30": hist(150000, 2000000, "populations of planar, spatial and homogeneous vectors stepped by in-place and copying calls, saved, crashed and restored", ["process crash and restart"], ["turns", "lengths set", "results written over an operand", "crashes with restore"]),
    "C31": hist(200000, 2500000, "populations of 2x2, 3x3 and 4x4 matrices combined, inverted, transposed, adjoined, mapped over strided arrays, saved, crashed and restored from elements", ["process crash and restart"], ["matrices beside the identity", "singular matrices inverted", "vectors mapped with strides", "crashes"]),
    "C20": hist(200000, 2500000, "populations of quaternions multiplied, divided, normalised, converted to matrices and back, applied to vectors, saved, crashed and restored from elements", ["process crash and restart"], ["quotients", "made from matrices", "beside half turns", "null quaternions", "crashes"]),
    "C32": hist(240000, 3000000, "cells of vectors, matrices, quaternions, volumes, planes, curves, frustums and colours stepped in place, operands coinciding with or being parts of what is changed, saved, crashed and restored", ["operands that coincide with results", "process crash and restart"], ["steps that read the cell they change", "steps that read a part of the cell they change", "arrays mapped in place", "crashes"]),
    "C33": hist(400000, 5000000, "panels opening and closing along every interpolation mode on a clock that stalls, jumps and steps back, watched from both sides", ["stalled clock", "clock stepping back", "clock jumping", "process crash and restart"], ["stalled clock", "clock stepping back", "clock jumping", "crashes"]),
})

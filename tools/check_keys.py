#!/usr/bin/env python3
"""V01: monitor of /repo/validation/_keys.py.

Runs the real helper functions on every spelling of the 24 keys and on random
strings; the oracle is computed here from pitch-class arithmetic, not from the
tables of the module.  usage: check_keys.py TIER | replay FILE
"""
import importlib.util, json, os, random, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOD = "/repo/validation/_keys.py"
sys.dont_write_bytecode = True


def load():
    spec = importlib.util.spec_from_file_location("vp_keys", MOD)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


LETTER = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
# spellings of the twelve tonics in common use
SHARPS = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
FLATS = ["Db", "Eb", "Gb", "Ab", "Bb", "Cb", "Fb", "E#", "B#"]
MAJ = ["", "maj", " maj", "major", " major", "Maj", " Major", " MAJOR", "MAJ"]
MIN = ["m", "min", " min", "minor", " minor", "Min", " Minor", " MINOR", "MIN", " m"]


def pc(sp):
    d = {"#": 1, "\u266f": 1, "b": -1, "\u266d": -1}
    return (LETTER[sp[0].upper()] + sum(d[ch] for ch in sp[1:])) % 12


def canon(p, minor):
    return NAMES[p] + ("m" if minor else "")


def wheel(n, letter):
    """numerical wheel: 8B is C major, each step up is a fifth; nA is nB's relative minor"""
    major = (7 * (n - 8)) % 12
    return canon((major + 9) % 12, True) if letter == "A" else canon(major, False)


def spellings(rng):
    """(text, canonical name) for a spelled key"""
    if rng.random() < 0.25:
        n, l = rng.randint(1, 12), rng.choice("AB")
        t = f"{n}{l}" if rng.random() < 0.7 else f"{n}{l.lower()}"
        if rng.random() < 0.2:
            t = t[:-1] + " " + t[-1]
        want = wheel(n, l)
    else:
        sp = rng.choice(SHARPS + FLATS)
        minor = rng.random() < 0.5
        want = canon(pc(sp), minor)
        if rng.random() < 0.3:
            sp = sp.replace("b", "\u266d").replace("#", "\u266f")
        if rng.random() < 0.3:
            sp = sp[0].lower() + sp[1:]
        suf = rng.choice(MIN if minor else MAJ)
        t = sp + suf
    if rng.random() < 0.3:
        t = " " * rng.randint(0, 3) + t + rng.choice([" ", "\t", "\n", "  "])
    return t, want


def junk(rng):
    pool = ["H", "x", "?", "9", "0A", "13A", "13B", "99B", "unknown", "none", "N/A", "-", "\u266d", "#", "minor", "maj",
            "Z#m", "\u00b2A", "\u00b9B", "1\u00b2A", "\u2460A", "\u4e2d", "\u0660A", "1C", "8", "0B", "", " ", "\t", "K maj", "\u00e9"]
    t = rng.choice(pool)
    if rng.random() < 0.5:
        t = "".join(chr(rng.choice([rng.randint(32, 126), rng.randint(0xA0, 0x2FF), rng.randint(0x2660, 0x2670), rng.randint(0x1F600, 0x1F64F)])) for _ in range(rng.randint(0, 8)))
    return t


CANON = {canon(p, mi) for p in range(12) for mi in (False, True)}


def check_spelling(m, t, want):
    got = m.normalize_key(t)
    if got != want:
        return f"normalize_key({t!r}) = {got!r}, expected {want!r}"
    if m.normalize_key(got) != got:
        return f"normalising {t!r} twice gives {m.normalize_key(got)!r}, once {got!r}"
    km = m.key_name_to_echonest_key_mode(t)
    minor = want.endswith("m")
    exp = (NAMES.index(want[:-1] if minor else want), 0 if minor else 1)
    if km is None or tuple(km) != exp:
        return f"key_name_to_echonest_key_mode({t!r}) = {km!r}, expected {exp!r}"
    return None


def surely_unknown(t):
    """text that names no key under any reading: no first letter A-G and no wheel code"""
    u = t.strip().upper().replace(" ", "")
    if not u:
        return True
    if u[0] in "ABCDEFG":
        return False
    return not (len(u) in (2, 3) and u[-1] in "AB" and u[:-1].isdigit() and u[:-1].isascii() and 1 <= int(u[:-1]) <= 12)


def check_any(m, t):
    got = m.normalize_key(t)
    if not isinstance(got, str):
        return f"normalize_key({t!r}) = {got!r}, not text"
    if got != "" and got not in CANON:
        return f"normalize_key({t!r}) = {got!r}, not a key name"
    if m.normalize_key(got) != got:
        return f"normalising {t!r} twice gives {m.normalize_key(got)!r}, once {got!r}"
    if surely_unknown(t) and got != "":
        return f"normalize_key({t!r}) = {got!r} for text that names no key"
    km = m.key_name_to_echonest_key_mode(t)
    if surely_unknown(t) and km is not None:
        return f"key_name_to_echonest_key_mode({t!r}) = {km!r} for text that names no key"
    if km is not None:
        k, mode = km
        if not (0 <= k <= 11 and mode in (0, 1)) or canon(k, mode == 0) != got:
            return f"key_name_to_echonest_key_mode({t!r}) = {km!r} but the canonical name is {got!r}"
    elif got in CANON:
        return f"key_name_to_echonest_key_mode({t!r}) is None but the canonical name is {got!r}"
    return None


def exhaustive():
    """every tonic spelling x accidental style x case x suffix, and every wheel code"""
    for sp in SHARPS + FLATS:
        for a in (sp, sp.replace("b", "\u266d").replace("#", "\u266f")):
            for b in (a, a[0].lower() + a[1:]):
                for minor, sufs in ((False, MAJ), (True, MIN)):
                    for s in sufs:
                        yield b + s, canon(pc(sp), minor)
    for n in range(1, 13):
        for l in "AB":
            for t in (f"{n}{l}", f"{n}{l.lower()}", f" {n}{l} ", f"{n} {l}"):
                yield t, wheel(n, l)


def run_case(m, kind, t, want):
    try:
        return check_spelling(m, t, want) if kind == "spelling" else check_any(m, t)
    except Exception as e:
        return f"{kind} {t!r}: {type(e).__name__}: {e}"


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        msg = run_case(load(), d["kind"], d["text"], d.get("want"))
        print(msg or "held")
        return 1 if msg else 0
    tier = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    n = 200000 if tier == "quick" else 3000000
    rng = random.Random(seed * 7919 + 17)
    viol, seen, samples = [], set(), []
    ev = {"exhaustive_spellings": 0, "random_spellings": 0, "random_text": 0, "named_no_key": 0}
    total = 0
    try:
        m = load()
    except Exception as e:
        m = None
        viol.append(("load", "", None, f"the module cannot be loaded: {type(e).__name__}: {e}"))

    def one(kind, t, want=None):
        nonlocal total
        total += 1
        msg = run_case(m, kind, t, want)
        if msg:
            viol.append((kind, t, want, msg))
        return msg

    if m is not None:
        for t, want in exhaustive():
            ev["exhaustive_spellings"] += 1
            seen.add(t)
            one("spelling", t, want)
        for i in range(n):
            if len(viol) > 20:
                break
            if rng.random() < 0.5:
                t, want = spellings(rng)
                ev["random_spellings"] += 1
                seen.add(t)
                one("spelling", t, want)
            else:
                t = junk(rng)
                ev["random_text"] += 1
                if surely_unknown(t):
                    ev["named_no_key"] += 1
                if t.strip():
                    seen.add(t)
                one("any", t)
            if i % 25000 == 0:
                samples.append({"text": t, "canonical": m.normalize_key(t)})
    os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    json.dump({
        "property": "V01", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total, "distinct_nontrivial": len(seen),
            "rule": "every tonic spelling x accidental style x case x major/minor suffix and every wheel code, then random spellings with spacing and random text; non-trivial: text that is not blank; distinct by text",
            "samples": samples or [{"note": "none"}], "events_observed": ev},
        "assumptions": ["spellings are those named in the statement; the twelve tonics as sharps or common flats"],
        "wall_s": time.time() - t0, "violations": len(viol)}, open(f"{HERE}/evidence/V01.json", "w"), indent=1)
    print(f"V01 {tier} seed={seed} cases={total} distinct={len(seen)} wall={time.time()-t0:.1f}s violations={len(viol)}")
    for i, (kind, t, want, msg) in enumerate(viol[:5]):
        p = f"{HERE}/evidence/replay/V01-{seed}-{i}.json"
        json.dump({"property": "V01", "kind": kind, "text": t, "want": want, "message": msg}, open(p, "w"))
        print("  " + msg)
        print(f"VIOLATION property=V01 replay={p}")
    return 1 if viol else 0


sys.exit(main())

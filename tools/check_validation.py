#!/usr/bin/env python3
"""V02-V06: monitors of the validation tools in /repo/validation.

usage: check_validation.py ID TIER | replay FILE

Every case is a pure function of (property, case number, seed): the replay file
records those and the case is run again.  All files a case writes live in a
scratch directory that is removed afterwards.
"""
import collections, concurrent.futures, contextlib, csv, importlib, io, json, math, os, random, re, shutil
import struct, subprocess, sys, tempfile, threading, time
from pathlib import Path

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
sys.path.insert(0, REPO)

NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]
KEYS = NAMES + [n + "m" for n in NAMES]


class Bad(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Bad(msg)


def mod(name):
    return importlib.import_module(name)


def run_main(m, argv):
    """run a tool's main() in this process; (exit code, stdout)"""
    out = io.StringIO()
    old = sys.argv
    sys.argv = [m.__name__] + argv
    try:
        with contextlib.redirect_stdout(out):
            try:
                rc = m.main()
            except SystemExit as e:
                rc = e.code
    finally:
        sys.argv = old
    return (0 if rc is None else rc), out.getvalue()


# --------------------------------------------------------------- ID3 tags (V02)

def synchsafe(n):
    return bytes([(n >> 21) & 0x7F, (n >> 14) & 0x7F, (n >> 7) & 0x7F, n & 0x7F])


def enc_text(rng, enc, s, term):
    if enc == 0:
        return s.encode("latin1") + (b"\0" if term else b"")
    if enc == 3:
        return s.encode("utf-8") + (b"\0" if term else b"")
    if enc == 2:
        return s.encode("utf-16-be") + (b"\0\0" if term else b"")
    if rng.random() < 0.7:
        return b"\xff\xfe" + s.encode("utf-16-le") + (b"\0\0" if term else b"")
    return b"\xfe\xff" + s.encode("utf-16-be") + (b"\0\0" if term else b"")


def pick_enc(rng, s):
    e = rng.randint(0, 3)
    if e == 0 and any(ord(c) > 255 for c in s):
        e = rng.choice([1, 2, 3])
    return e


def rand_text(rng, lo=1, hi=24):
    pools = ["abcdefghijklmnopqrstuvwxyz ABCDEFG0123456789-'&()", "éüñßÅø½", "日本語テスト", "ĀĦȀ\u0400Ж", "\U0001F3B5"]
    pool = pools[0] if rng.random() < 0.5 else "".join(pools[: rng.randint(2, 5)])
    t = "".join(rng.choice(pool) for _ in range(rng.randint(lo, hi))).strip()
    return t or "x"


def bpm_text(rng):
    """(text, value or None)"""
    k = rng.randint(0, 6)
    n = rng.randint(40, 240)
    if k == 0:
        return str(n), float(n)
    if k == 1:
        v = f"{n}.{rng.randint(0, 99):02d}"
        return v, float(v)
    if k == 2:
        return f"{n} BPM", float(n)
    if k == 3:
        return f"{n}.5bpm", n + 0.5
    if k == 4:
        return f" {n}.0 ", float(n)
    if k == 5:
        return f"{n:03d}", float(n)
    return f"BPM {n}", float(n)


class Tag:
    """an ID3v2 tag being written, and the fields a reader must find in it"""

    def __init__(self, rng, ver):
        self.rng, self.ver = rng, ver
        self.frames = []  # (id, payload, effect)

    def blanks(self, s):
        return self.rng.choice(["", " ", "   "]) + s + self.rng.choice(["", " ", "  "]) if self.rng.random() < 0.2 else s

    def text(self, fid, s, field, val):
        s = self.blanks(s)
        e = pick_enc(self.rng, s)
        self.frames.append((fid, bytes([e]) + enc_text(self.rng, e, s, self.rng.random() < 0.4), (field, val)))

    def user(self, desc, s, effect):
        desc, s = self.blanks(desc), self.blanks(s)
        e = pick_enc(self.rng, desc + s)
        self.frames.append(("TXXX", bytes([e]) + enc_text(self.rng, e, desc, True) + enc_text(self.rng, e, s, self.rng.random() < 0.3), effect))

    def junk(self):
        fid = self.rng.choice(["COMM", "APIC", "TSSE", "PRIV", "TPE2", "TLEN", "WXXX", "GEOB"])
        n = self.rng.choice([1, 5, 100, 127, 128, 129, 255, 256, 300, 5000, 16383, 16384, 16500, 40000])
        self.frames.append((fid, self.rng.randbytes(n), None))

    def encode(self):
        body, ends = b"", []
        for fid, p, eff in self.frames:
            size = synchsafe(len(p)) if self.ver == 4 else struct.pack(">I", len(p))
            body += fid.encode() + size + b"\0\0" + p
            ends.append(len(body))
        pad = self.rng.choice([0, 0, 5, 10, 64, 500])
        total = len(body) + pad
        return b"ID3" + bytes([self.ver, 0, 0]) + synchsafe(total) + body + b"\0" * pad, ends


def fields_of(effects):
    """fold the frames into the fields: dedicated frames win over user-defined ones, first user frame wins"""
    out = {"title": "", "artist": "", "album": "", "genre": "", "bpm": None, "key": ""}
    for e in effects:
        if e and e[0] in out and e[0] not in ("ukey", "ubpm"):
            out[e[0]] = e[1]
    for e in effects:
        if e and e[0] == "ukey" and not out["key"]:
            out["key"] = e[1]
        if e and e[0] == "ubpm" and out["bpm"] is None:
            out["bpm"] = e[1]
    return out


def random_tag(rng, want_bpm=None, want_key=None):
    ver = rng.choice([3, 4])
    t = Tag(rng, ver)
    todo = []
    for fid, f in (("TIT2", "title"), ("TPE1", "artist"), ("TALB", "album"), ("TCON", "genre")):
        if rng.random() < 0.6:
            todo.append(("text", fid, rand_text(rng), f))
    has_bpm = want_bpm if want_bpm is not None else rng.random() < 0.7
    if has_bpm:
        s, v = bpm_text(rng)
        todo.append(("tbpm", s, v) if rng.random() < 0.6 else ("ubpm", rng.choice(["BPM", "bpm", "Tempo", "TBPM"]), s, v))
        if rng.random() < 0.2:
            s, v = bpm_text(rng)
            todo.append(("ubpm", "bpm", s, v))
    has_key = want_key if want_key is not None else rng.random() < 0.7
    if has_key:
        k = rng.choice(KEYS + ["8A", "12B", "1A", "Db", "Ebm", "C major", "A minor", "F♯m", "B♭"])
        todo.append(("tkey", k) if rng.random() < 0.5 else ("ukey", rng.choice(["initialkey", "INITIALKEY", "Initial Key", "key", "Key"]), k))
        if rng.random() < 0.2:
            todo.append(("ukey", "initialkey", rng.choice(KEYS)))
    for _ in range(rng.randint(0, 3)):
        todo.append(("junk",))
    if rng.random() < 0.3:
        todo.append(("other", rng.choice(["comment", "mood", "keyword", "BPM offset", "энергия"]), rand_text(rng, 0, 8)))
    rng.shuffle(todo)
    for x in todo:
        if x[0] == "text":
            t.text(x[1], x[2], x[3], x[2])
        elif x[0] == "tbpm":
            t.text("TBPM", x[1], "bpm", x[2])
        elif x[0] == "tkey":
            t.text("TKEY", x[1], "key", x[1])
        elif x[0] == "ubpm":
            t.user(x[1], x[2], ("ubpm", x[3]))
        elif x[0] == "ukey":
            t.user(x[1], x[2], ("ukey", x[2]))
        elif x[0] == "other":
            t.user(x[1], x[2], None)
        else:
            t.junk()
    return t


def well_typed(d, raw):
    need(isinstance(d, dict), f"result is {type(d).__name__}")
    for f in ("title", "artist", "album", "genre", "key"):
        need(isinstance(d.get(f), str), f"field {f} is {d.get(f)!r} for {raw[:40]!r}...")
    need(d.get("bpm") is None or (isinstance(d["bpm"], float) and d["bpm"] > 0), f"bpm is {d.get('bpm')!r}")


def case_v02(rng, tmp, ev):
    m = mod("validation._id3")
    p = Path(tmp) / "t.mp3"
    t = random_tag(rng)
    raw, ends = t.encode()
    audio = b"\xff\xfb\x90\x00" + rng.randbytes(rng.randint(0, 200))
    effects = [e for _, _, e in t.frames]
    kind = rng.choice(["whole", "whole", "whole", "cut", "damaged", "garbage"])
    ev["kind:" + kind] += 1
    if kind == "whole":
        p.write_bytes(raw + audio)
        got = m.read_id3_text_fields(p)
        well_typed(got, raw)
        exp = fields_of(effects)
        for f, v in exp.items():
            g = got[f]
            ok = (g is None) == (v is None) and (v is None or abs(g - v) < 1e-9) if f == "bpm" else g == v
            need(ok, f"ID3v2.{t.ver} tag with frames {[x[0] for x in t.frames]}: {f} read as {g!r}, written as {v!r}")
            ev["fields_compared"] += 1
            if v:
                ev["field_present:" + f] += 1
        ev["utf16_user_frames"] += sum(1 for f, pl, _ in t.frames if f == "TXXX" and pl[0] in (1, 2))
        ev["frames_over_127_bytes"] += sum(1 for _, pl, _ in t.frames if len(pl) > 127)
        return ("whole", t.ver, tuple(x[0] for x in t.frames), tuple(sorted((k, str(v)) for k, v in exp.items())))
    if kind == "cut":
        n = rng.randint(0, len(raw))
        p.write_bytes(raw[:n])
        got = m.read_id3_text_fields(p)
        well_typed(got, raw)
        done = sum(1 for e in ends if e + 10 <= n)
        exp = fields_of(effects[:done])
        for f, v in exp.items():
            need(got[f] == v or (f == "bpm" and v is not None and got[f] is not None and abs(got[f] - v) < 1e-9),
                 f"tag cut after {done} whole frames ({[x[0] for x in t.frames]}): {f} read as {got[f]!r}, the whole frames say {v!r}")
        ev["cut_frames_read"] += done
        return ("cut", n, len(t.frames))
    if kind == "damaged":
        b = bytearray(raw)
        for _ in range(rng.randint(1, 20)):
            b[rng.randrange(len(b))] = rng.randrange(256)
        p.write_bytes(bytes(b) + audio)
    else:
        head = b"ID3" + bytes([rng.choice([2, 3, 4, 255]), 0, 0]) + rng.randbytes(4) if rng.random() < 0.7 else b""
        p.write_bytes(head + rng.randbytes(rng.randint(0, 400)))
    well_typed(m.read_id3_text_fields(p), p.read_bytes())
    if rng.random() < 0.05:
        well_typed(m.read_id3_text_fields(Path(tmp) / "absent.mp3"), b"")
        ev["absent_file"] += 1
    s, v = bpm_text(rng)
    need(m.parse_bpm(s) is not None and abs(m.parse_bpm(s) - v) < 1e-9, f"parse_bpm({s!r}) = {m.parse_bpm(s)!r}")
    for s in ("", "none", "-", "0", "-128", "BPM"):
        need(m.parse_bpm(s) is None, f"parse_bpm({s!r}) = {m.parse_bpm(s)!r}")
    return (kind, rng.random())


# --------------------------------------------------- the validation runner (V03)

BOOL_FLAGS = """no-preprocess no-onset-consensus force-legacy-bpm bpm-fusion no-tempogram-multi-res no-tempogram-percussive
no-tempogram-band-fusion band-score-fusion no-tempogram-mel-novelty key-hpss no-key-hpss key-mode-heuristic
key-minor-harmonic-bonus no-key-segment-voting key-hpcp key-hpcp-whitening key-stft-override no-key-stft-override
key-log-freq no-key-log-freq key-beat-sync no-key-beat-sync key-multi-scale no-key-multi-scale key-template-temperley
key-template-kk key-ensemble no-key-ensemble key-median no-key-median multi-res-human-prior""".split()
INT_FLAGS = """superflux-max-filter-bins mel-n-mels mel-max-filter-bins novelty-local-mean-window novelty-smooth-window
key-hpss-frame-step key-hpss-time-margin key-hpss-freq-margin key-segment-len-frames key-segment-hop-frames key-hpcp-peaks
key-hpcp-harmonics key-hpcp-whitening-smooth-bins key-stft-frame-size key-stft-hop-size key-multi-scale-hop
key-median-segment-length-frames key-median-segment-hop-frames key-median-min-segments multi-res-top-k""".split()
FLOAT_FLAGS = """band-low-max-hz band-mid-max-hz band-high-max-hz band-w-full band-w-low band-w-mid band-w-high
band-support-threshold band-consensus-bonus mel-fmin-hz mel-fmax-hz mel-weight novelty-w-spectral novelty-w-energy
novelty-w-hfc key-hpss-mask-power key-mode-third-margin key-mode-flip-min-score-ratio key-minor-leading-tone-bonus-weight
key-segment-min-clarity key-hpcp-harmonic-decay key-hpcp-mag-power key-multi-scale-min-clarity key-ensemble-kk-weight
key-ensemble-temperley-weight multi-res-w512 multi-res-w256 multi-res-w1024 multi-res-structural-discount
multi-res-double-time-512-factor multi-res-margin-threshold legacy-preferred-min legacy-preferred-max legacy-soft-min
legacy-soft-max legacy-mul-preferred legacy-mul-soft legacy-mul-extreme""".split()
STR_FLAGS = {"key-multi-scale-lengths": ["120,360,720", "200,400"], "key-multi-scale-weights": ["0.2,0.5,0.3", "1,2"]}

STUB = r"""#!/bin/sh
# stand-in for the analyser: plays back the plan that lies beside the audio file
f="$1"
l="called"
for a in "$@"; do l="$l|$a"; done
printf '%s\n' "$l" >> "$f.calls"
[ -f "$f.sleep" ] && sleep "$(cat "$f.sleep")"
cat "$f.out"
cat "$f.err" >&2
exit "$(cat "$f.rc")"
"""


def norm_key(s):
    """canonical name by pitch-class arithmetic; '' for blank (spellings used here are known keys)"""
    s = s.strip().replace("♭", "b").replace("♯", "#")
    if not s:
        return ""
    mt = re.fullmatch(r"(\d+)([ABab])", s)
    if mt:
        major = (7 * (int(mt.group(1)) - 8)) % 12
        return NAMES[(major + 9) % 12] + "m" if mt.group(2).upper() == "A" else NAMES[major]
    mt = re.fullmatch(r"([A-Ga-g])([#b]?)\s*(m|min|minor|maj|major|)", s)
    need(mt is not None, f"oracle cannot read key {s!r}")
    pc = ({"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}[mt.group(1).upper()] + {"#": 1, "b": -1, "": 0}[mt.group(2)]) % 12
    return NAMES[pc] + ("m" if mt.group(3) in ("m", "min", "minor") else "")


def same_val(a, b):
    """CSV text against an expected value"""
    if isinstance(b, bool):
        return a.strip().lower() == str(b).lower()
    if isinstance(b, (int, float)):
        try:
            return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(b))
        except ValueError:
            return False
    return a == str(b)


def case_v03(rng, tmp, ev):
    tmp = Path(tmp)
    data = tmp / "data"
    res = data / "results"
    res.mkdir(parents=True)
    audio = tmp / "audio dir" if rng.random() < 0.3 else tmp / "audio"
    audio.mkdir()
    stub = tmp / "stub.sh"
    stub.write_text(STUB)
    stub.chmod(0o755)
    n = rng.randint(1, 22)
    ids = rng.sample(range(2, 900000), n)
    batch, want = [], {}
    for tid in ids:
        f = audio / f"{tid:06d}{rng.choice(['', ' (mix)', ' é'])}.mp3"
        gt = round(rng.uniform(50, 200), rng.choice([0, 2, 6]))
        key_gt = rng.choice(KEYS + ["", "", ""])
        genre = rng.choice(["Techno", "Hip-Hop", 'Drum "n" Bass, UK', "", "Électro"])
        batch.append({"track_id": tid, "filename": str(f), "bpm_gt": gt, "key_gt": key_gt, "genre": genre})
        kind = rng.choice(["ok"] * 12 + ["absent", "exit", "nojson", "broken", "nobpm", "nokey"])
        ev["outcome:" + kind] += 1
        if kind == "absent":
            continue
        t = random_tag(rng)
        raw, _ = t.encode()
        tag = fields_of([e for _, _, e in t.frames]) if rng.random() < 0.8 else None
        f.write_bytes((raw if tag else b"") + b"\xff\xfb\x90\x00" + b"\0" * 40)
        near = rng.choice([0.0, 0.4, 1.9, 2.0, 2.1, 5.0, 30.0])
        pred = round(gt + rng.choice([-1, 1]) * near + rng.choice([0.0, rng.uniform(-0.3, 0.3)]), 2)
        out = {"bpm": pred, "bpm_confidence": round(rng.random(), 2), "key": rng.choice(KEYS if rng.random() < 0.5 or not key_gt else [key_gt]),
               "key_confidence": round(rng.random(), 2), "key_clarity": round(rng.random(), 2), "grid_stability": round(rng.random(), 2)}
        for fl in ("tempogram_multi_res_triggered", "tempogram_multi_res_used", "tempogram_percussive_triggered", "tempogram_percussive_used"):
            if rng.random() < 0.6:
                out[fl] = rng.random() < 0.5
        if rng.random() < 0.1:
            del out["key_clarity"]
        if kind == "nobpm":
            del out["bpm"]
        if kind == "nokey":
            del out["key"]
        text = json.dumps(out, indent=rng.choice([None, 2]))
        if rng.random() < 0.3:
            text = "analysing...\n" + text + "\n"
        if kind == "nojson":
            text = "done\n"
        if kind == "broken":
            text = text.replace(":", "=", 1)
        (f.parent / (f.name + ".out")).write_text(text)
        (f.parent / (f.name + ".err")).write_text("[INFO] noise\n" if rng.random() < 0.5 else "")
        (f.parent / (f.name + ".rc")).write_text("3" if kind == "exit" else "0")
        if rng.random() < 0.4:
            (f.parent / (f.name + ".sleep")).write_text(f"{rng.uniform(0, 0.05):.3f}")
        if kind == "ok":
            bt = tag["bpm"] if tag else None
            kt = tag["key"] if tag else ""
            g, pk, tk = norm_key(key_gt), norm_key(out["key"]), norm_key(kt)
            if g:
                ref, match, tmatch = "GT", "YES" if pk == g else "NO", "YES" if tk == g else "NO"
            elif tk:
                ref, match, tmatch = "TAG", "YES" if pk == tk else "NO", "N/A"
            else:
                ref, match, tmatch = "N/A", "N/A", "N/A"
            ev["key_reference:" + ref] += 1
            row = {"track_id": tid, "genre": genre, "bpm_gt": gt, "bpm_pred": pred, "bpm_error": abs(pred - gt),
                   "bpm_tag": "" if bt is None else bt, "bpm_tag_error": "" if bt is None else abs(bt - gt), "key_gt": key_gt,
                   "key_pred": out["key"], "key_ref": ref, "key_match": match, "key_tag": kt, "key_tag_match": tmatch}
            for k in ("bpm_confidence", "key_confidence", "key_clarity", "grid_stability"):
                row[k] = out.get(k, 0.0)
            for k in ("tempogram_multi_res_triggered", "tempogram_multi_res_used", "tempogram_percussive_triggered", "tempogram_percussive_used"):
                row[k] = out.get(k, "")
            want[tid] = row

    def write_batch(name, rows):
        with open(res / name, "w", newline="", encoding="utf-8") as fh:
            w = csv.DictWriter(fh, fieldnames=["track_id", "filename", "bpm_gt", "key_gt", "genre"])
            w.writeheader()
            w.writerows(rows)

    if rng.random() < 0.5:
        write_batch("test_batch_20250101_120000.csv", batch[:1] * 1)
        write_batch("test_batch.csv", batch[:1])
        write_batch("test_batch_20250607_080910.csv", batch)
        ev["several_batches"] += 1
    else:
        write_batch(rng.choice(["test_batch.csv", "test_batch_20240909_101112.csv"]), batch)
    args, flags = [], []
    for fl in rng.sample(BOOL_FLAGS, rng.choice([0, 1, 3])):
        args.append("--" + fl)
        flags.append(("--" + fl, None))
    for fl in rng.sample(INT_FLAGS, rng.choice([0, 1, 2])):
        v = rng.randint(1, 900)
        args += ["--" + fl, str(v)]
        flags.append(("--" + fl, float(v)))
    for fl in rng.sample(FLOAT_FLAGS, rng.choice([0, 1, 2])):
        v = rng.choice([0.0, round(rng.uniform(0, 3), 3), float(rng.randint(1, 9000))])
        args += ["--" + fl, str(v)]
        flags.append(("--" + fl, v))
    for fl in STR_FLAGS:
        if rng.random() < 0.15:
            v = rng.choice(STR_FLAGS[fl])
            args += ["--" + fl, v]
            flags.append(("--" + fl, v))
    ev["flags_forwarded"] += len(flags)
    lim = None
    if rng.random() < 0.25:
        lim = rng.randint(1, n + 2)
        args += ["--max-tracks", str(lim)]
    used = batch[:lim] if lim else batch
    dbg = set()
    if rng.random() < 0.2:
        dbg = set(rng.sample(ids, min(2, n)))
        args += ["--debug-track-ids", ", ".join(map(str, dbg))]
    jobs = rng.choice([1, 2, 3, 4, 8, 16])
    ev["parallel_runs" if jobs > 1 else "serial_runs"] += 1
    args += ["--jobs", str(jobs), "--data-path", str(data), "--binary", str(stub)]
    r = subprocess.run([sys.executable, "-B", "-m", "validation.tools.run_validation"] + args, cwd=REPO, capture_output=True, text=True, timeout=120)
    need(r.returncode == 0, f"run_validation exited {r.returncode} on a well-formed batch: {r.stderr[-300:]}")
    want = {t["track_id"]: want[t["track_id"]] for t in used if t["track_id"] in want}
    files = list(res.glob("validation_results_*.csv"))
    rows = []
    if want:
        need(len(files) == 1, f"{len(files)} result files for {len(want)} answered tracks")
        rows = list(csv.DictReader(open(files[0], encoding="utf-8", newline="")))
    else:
        need(not files, "a result file for a batch in which no track was answered")
    c = collections.Counter(int(x["track_id"]) for x in rows)
    for tid in c:
        need(c[tid] == 1, f"track {tid} recorded {c[tid]} times ({jobs} jobs)")
        need(tid in want, f"track {tid} recorded although it was not answered")
    for tid, w in want.items():
        need(tid in c, f"track {tid} was answered but not recorded ({jobs} jobs, {len(used)} tracks)")
    for x in rows:
        w = want[int(x["track_id"])]
        for k, v in w.items():
            need(k in x and same_val(x[k], v), f"track {x['track_id']}: column {k} is {x.get(k)!r}, expected {v!r}")
            ev["columns_compared"] += 1
    # every track was analysed once, with exactly the options asked for
    for t in used:
        cf = Path(t["filename"] + ".calls")
        if not Path(t["filename"]).exists():
            need(not cf.exists(), f"analyser called for the absent file of track {t['track_id']}")
            continue
        calls = cf.read_text().splitlines() if cf.exists() else []
        need(len(calls) == 1, f"track {t['track_id']} analysed {len(calls)} times")
        a = calls[0].split("|")[1:]
        need(a[0] == t["filename"], f"analyser called with {a[0]!r}")
        got, i = [], 1
        while i < len(a):
            if i + 1 < len(a) and not a[i + 1].startswith("--"):
                got.append((a[i], a[i + 1]))
                i += 2
            else:
                got.append((a[i], None))
                i += 1
        exp = flags + [("--json", None)]
        if t["track_id"] in dbg:
            exp = exp + [("--debug-track-id", float(t["track_id"])), ("--debug-gt-bpm", t["bpm_gt"])]
        need(len(got) == len(exp), f"analyser got options {a[1:]}, asked for {exp}")
        for k, v in exp:
            hit = [y for x, y in got if x == k]
            need(len(hit) == 1, f"option {k} reached the analyser {len(hit)} times (asked for once)")
            h = hit[0]
            ok = h is None if v is None else (h is not None and (h == v if isinstance(v, str) else abs(float(h) - v) <= 1e-6))
            need(ok, f"option {k} reached the analyser as {h!r}, asked for {v!r}")
        ev["calls_checked"] += 1
    for t in batch[len(used):]:
        need(not Path(t["filename"] + ".calls").exists(), f"track {t['track_id']} analysed although outside --max-tracks {lim}")
    # the printed summary
    o = r.stdout
    if rows:
        def val(pat, tol, exp):
            mt = re.search(pat, o)
            need(mt is not None, f"summary line /{pat}/ missing")
            need(abs(float(mt.group(1)) - exp) <= tol, f"summary says {mt.group(0)!r}, expected {exp:.4f}")
            ev["summary_values"] += 1
        ws = list(want.values())
        errs = [w["bpm_error"] for w in ws]
        val(r"Tracks tested: (\d+)", 0, len(ws))
        val(r"Stratum BPM MAE: ±([\d.]+)", 0.0051, sum(errs) / len(errs))
        edge = any(abs(e - 2.0) < 1e-6 for e in errs)
        if not edge:
            val(r"Stratum BPM accuracy \(±2 BPM\): ([\d.]+)%", 0.051, 100 * sum(e <= 2.0 for e in errs) / len(errs))
        for ref, label in (("GT", "Stratum Key accuracy vs GT"), ("TAG", "Stratum Key agreement vs TAG")):
            k = [w for w in ws if w["key_ref"] == ref]
            if k:
                val(label + r": ([\d.]+)%", 0.051, 100 * sum(w["key_match"] == "YES" for w in k) / len(k))
                val(label + r": [\d.]+% \(n=(\d+)\)", 0, len(k))
        te = [w["bpm_tag_error"] for w in ws if w["bpm_tag_error"] != ""]
        if te:
            val(r"TAG BPM MAE: ±([\d.]+)", 0.0051, sum(te) / len(te))
        kt = [w for w in ws if w["key_tag_match"] in ("YES", "NO")]
        if kt:
            val(r"TAG Key accuracy vs GT: ([\d.]+)%", 0.051, 100 * sum(w["key_tag_match"] == "YES" for w in kt) / len(kt))
    order = tuple(int(x["track_id"]) for x in rows)
    ev["orders_differing_from_batch"] += order != tuple(sorted(order, key=[t["track_id"] for t in batch].index))
    return (n, jobs, len(want), order, tuple(f for f, _ in flags))


# ------------------------------------------------ ground truth to test batch (V04)

def read_batch(res):
    f = list(res.glob("test_batch_*.csv"))
    need(len(f) == 1, f"{len(f)} test batch files written")
    return list(csv.DictReader(open(f[0], encoding="utf-8", newline="")))


def case_v04(rng, tmp, ev):
    tmp = Path(tmp)
    prep = mod("validation.tools.prepare_test_batch")
    if rng.random() < 0.5:
        ev["from_metadata"] += 1
        return v04_metadata(rng, tmp, ev, prep)
    ev["from_tags"] += 1
    build = mod("validation.tools.build_hllmr_metadata")
    audio = tmp / "hllmr_small"
    audio.mkdir()
    n = rng.randint(1, 25)
    stems, want = set(), {}
    shared = rng.randint(10000, 99999999)
    for i in range(n):
        k = rng.randint(0, 4)
        if k == 0:
            s = f"{rand_text(rng)} - {i}".replace("/", "_")
        elif k == 1:
            s = f"Track {i}-{rng.randint(10000, 99999999)}"
        elif k == 2:
            s = f"Artist {i}_{shared}"
        elif k == 3:
            s = f"Copy {i}-{shared + rng.randint(0, 3)}"
        else:
            s = f"Short {i}-{rng.randint(0, 9999)}"
        s = s.replace("/", "_").strip(". ")
        if s in stems:
            continue
        stems.add(s)
        t = random_tag(rng)
        raw, _ = t.encode()
        (audio / (s + ".mp3")).write_bytes(raw + b"\xff\xfb\x90\x00" + b"\0" * 20)
        want[str((audio / (s + ".mp3")).resolve())] = fields_of([e for _, _, e in t.frames])
    (audio / "notes.txt").write_text("not audio")
    rc, out = run_main(build, ["--data-path", str(tmp)])
    need(rc == 0, f"build_hllmr_metadata returned {rc}: {out[-200:]}")
    have = {p: w for p, w in want.items() if w["bpm"] is not None}
    rc, out = run_main(prep, ["--data-path", str(tmp), "--audio-dir", "hllmr_small", "--metadata-dir", "hllmr_metadata", "--all"])
    if not have:
        need(rc not in (0, None), "a batch was prepared from tracks without ground truth")
        return ("tags-none", n)
    need(rc == 0, f"prepare_test_batch returned {rc}: {out[-200:]}")
    rows = read_batch(tmp / "results")
    ids = [r["track_id"] for r in rows]
    need(len(set(ids)) == len(ids), f"track ids are not distinct: {sorted(ids)}")
    c = collections.Counter(r["filename"] for r in rows)
    for p in have:
        need(c.get(p, 0) == 1, f"{os.path.basename(p)!r} has a BPM tag but appears {c.get(p, 0)} times in the batch")
    for r in rows:
        w = have.get(r["filename"])
        need(w is not None, f"{r['filename']!r} is in the batch without a BPM tag")
        need(abs(float(r["bpm_gt"]) - w["bpm"]) <= 1e-6, f"{r['filename']!r}: bpm_gt {r['bpm_gt']}, tag {w['bpm']}")
        need(r["key_gt"] == norm_key(w["key"]), f"{r['filename']!r}: key_gt {r['key_gt']!r}, tag {w['key']!r}")
        need(r["genre"] == w["genre"], f"{r['filename']!r}: genre {r['genre']!r}, tag {w['genre']!r}")
        tail = re.search(r"[-_](\d{5,})$", Path(r["filename"]).stem)
        if tail:
            ev["id_from_name" if int(tail.group(1)) == int(r["track_id"]) else "id_moved_by_collision"] += 1
        ev["rows_compared"] += 1
    return ("tags", n, tuple(sorted(ids)))


def v04_metadata(rng, tmp, ev, prep):
    fma = rng.random() < 0.5
    n = rng.randint(1, 30)
    ids = rng.sample(range(1, 160000), n)
    want = {}

    def build(root):
        r2 = random.Random(seed)
        meta = root / "fma_metadata"
        meta.mkdir(parents=True)
        audio = root / "fma_small"
        tr, ec = [], []
        cols = [("echonest", "audio_features", "tempo"), ("echonest", "audio_features", "key"), ("echonest", "audio_features", "mode"),
                ("echonest", "audio_features", "danceability"), ("echonest", "temporal_features", "tempo"), ("echonest", "metadata", "key")]
        r2.shuffle(cols)
        want.clear()
        for tid in ids:
            genre = r2.choice(["Rock", "Hip-Hop", "", "Folk, Acoustic"])
            exists = r2.random() < 0.8
            if fma:
                f = audio / f"{tid // 1000:03d}" / f"{tid:06d}.mp3"
            else:
                f = root / "files" / f"song {tid}.mp3"
            if exists:
                f.parent.mkdir(parents=True, exist_ok=True)
                f.write_bytes(b"x")
            tr.append([tid, genre] + ([] if fma else [str(f)]))
            tempo = r2.choice([f"{r2.uniform(40, 220):.3f}"] * 6 + ["", "0", "-90", "n/a"])
            key = r2.choice([str(r2.randint(0, 11)), f"{r2.randint(0, 11)}.0", "", "12", "-1", "x"])
            mode = r2.choice(["0", "1", "1.0", "0.0", "", "2"])
            vals = {("echonest", "audio_features", "tempo"): tempo, ("echonest", "audio_features", "key"): key,
                    ("echonest", "audio_features", "mode"): mode}
            if r2.random() < 0.9:
                ec.append([tid] + [vals.get(cx, f"{r2.uniform(0, 300):.2f}") for cx in cols])
            else:
                continue
            try:
                bpm = float(tempo)
            except ValueError:
                bpm = 0
            if bpm > 0 and exists:
                kn = ""
                try:
                    k, mo = int(float(key)), int(float(mode))
                    if 0 <= k <= 11 and mo in (0, 1):
                        kn = NAMES[k] + ("m" if mo == 0 else "")
                except ValueError:
                    pass
                want[tid] = (str(f.resolve()), bpm, kn, genre)
        r2.shuffle(tr)
        r2.shuffle(ec)
        with open(meta / "tracks.csv", "w", newline="", encoding="utf-8") as fh:
            w = csv.writer(fh)
            w.writerow(["", "track"] + ([] if fma else ["track"]))
            w.writerow(["", "genre_top"] + ([] if fma else ["filepath"]))
            w.writerow(["track_id", "track.genre_top"] + ([] if fma else ["filepath"]))
            for x in tr:
                w.writerow(x)
            if r2.random() < 0.3:
                w.writerow(["not-an-id", "Rock"])
        with open(meta / "echonest.csv", "w", newline="", encoding="utf-8") as fh:
            w = csv.writer(fh)
            for lv in range(3):
                w.writerow([""] + [cx[lv] for cx in cols])
            w.writerow(["track_id"] + [""] * len(cols))
            for x in ec:
                w.writerow(x)
            if r2.random() < 0.3:
                w.writerow(["oops"] + ["1"] * len(cols))

    seed = rng.getrandbits(60)
    build(tmp / "a")
    args = []
    k = None
    mode = rng.choice(["all", "zero", "n"])
    if mode == "all":
        args = ["--all"]
    elif mode == "zero":
        args = ["--num-tracks", "0"]
    else:
        k = rng.randint(1, n + 2)
        args = ["--num-tracks", str(k)]
    s = rng.randint(0, 1 << 30)
    args += ["--seed", str(s)]
    random.seed(rng.random())
    rc, out = run_main(prep, ["--data-path", str(tmp / "a")] + args)
    ev["mode:" + mode] += 1
    if not want:
        need(rc not in (0, None), "a batch was prepared although no track has ground truth and audio")
        return ("meta-none", n)
    need(rc == 0, f"prepare_test_batch returned {rc}: {out[-300:]}")
    rows = read_batch(tmp / "a" / "results")
    got = [int(r["track_id"]) for r in rows]
    size = len(want) if k is None else min(k, len(want))
    need(len(got) == size, f"{len(got)} tracks in the batch, expected {size} ({args}, {len(want)} eligible)")
    need(len(set(got)) == len(got), f"tracks repeat in the batch: {sorted(got)}")
    for r in rows:
        tid = int(r["track_id"])
        need(tid in want, f"track {tid} is in the batch without ground truth or audio")
        f, bpm, key, genre = want[tid]
        need(r["filename"] == f and abs(float(r["bpm_gt"]) - bpm) < 1e-9 and r["key_gt"] == key and r["genre"] == genre,
             f"track {tid}: {dict(r)!r}, metadata says {want[tid]!r}")
        ev["rows_compared"] += 1
    if k is not None and k < len(want):
        build(tmp / "b")
        random.seed(rng.random())
        rc, out = run_main(prep, ["--data-path", str(tmp / "b")] + args)
        need(rc == 0, f"second run returned {rc}")
        again = [int(r["track_id"]) for r in read_batch(tmp / "b" / "results")]
        need(again == got, f"seed {s} selected {got} and then {again}")
        ev["seeded_selections_repeated"] += 1
    return ("meta", n, fma, tuple(got))


# ------------------------------------------------------------- reports (V05)

FACTORS = {"1x": 1.0, "2x": 2.0, "1/2x": 0.5, "3/2x": 1.5, "2/3x": 2 / 3, "4/3x": 4 / 3, "3/4x": 0.75}
BANDS = [("lt60", 0, 60), ("60_90", 60, 90), ("90_120", 90, 120), ("120_150", 120, 150), ("150_180", 150, 180), ("gt180", 180, 1e9)]


def case_v05(rng, tmp, ev):
    n = rng.randint(1, 60)
    rows = []
    for i in range(n):
        gt = round(rng.uniform(45, 210), 3)
        f = rng.choice([1, 1, 1, 2, 0.5, 1.5, 2 / 3, 4 / 3, 0.75, 1.2, 2.6])
        pred = round(max(20.0, gt * f + rng.choice([0, rng.uniform(-3, 3), rng.uniform(-12, 12)])), 2)
        tag = round(gt + rng.choice([0, 1.5, 2.5, 60, -30]) * rng.random(), 2) if rng.random() < 0.6 else ""
        kg, kp = rng.choice(KEYS), rng.choice(KEYS)
        if rng.random() < 0.4:
            kp = kg
        elif rng.random() < 0.3:
            kp = kg[:-1] if kg.endswith("m") else kg + "m"
        ref = rng.choice(["GT", "GT", "TAG", "N/A"])
        rows.append({"track_id": 1000 + i, "genre": "x", "bpm_gt": gt, "bpm_pred": pred, "bpm_error": abs(pred - gt), "bpm_tag": tag,
                     "bpm_tag_error": "" if tag == "" else abs(tag - gt), "key_gt": kg if ref == "GT" else "", "key_pred": kp, "key_ref": ref,
                     "key_match": "N/A" if ref == "N/A" else ("YES" if kp == kg else "NO"), "key_tag": "", "key_tag_match": "N/A",
                     "tempogram_multi_res_triggered": rng.choice([True, False, ""]), "tempogram_multi_res_used": rng.choice([True, False, ""]),
                     "tempogram_percussive_triggered": rng.choice([True, False, ""]), "tempogram_percussive_used": rng.choice([True, False, ""])})
    p = Path(tmp) / "validation_results_20250101_000000.csv"
    with open(p, "w", newline="", encoding="utf-8") as fh:
        w = csv.DictWriter(fh, fieldnames=rows[0].keys())
        w.writeheader()
        w.writerows(rows)
    errs = [r["bpm_error"] for r in rows]
    te = [r["bpm_tag_error"] for r in rows if r["bpm_tag_error"] != ""]

    def grab(o, pat, k=1):
        mt = re.search(pat, o, re.M)
        need(mt is not None, f"report line /{pat}/ missing")
        ev["values_compared"] += 1
        return mt

    def num(o, pat, exp, tol, what):
        mt = grab(o, pat)
        need(abs(float(mt.group(1)) - exp) <= tol, f"{what}: report says {mt.group(0).strip()!r}, the rows give {exp:.4f}")

    which = rng.choice(["results", "ratio", "flags", "keys", "exemplars", "sweep", "rank"])
    ev["report:" + which] += 1
    near = lambda e, t: abs(e - t) < 1e-6
    if which == "results":
        rc, o = run_main(mod("validation.analysis.analyze_results"), ["--file", str(p)])
        num(o, r"Total tracks: (\d+)", n, 0, "tracks")
        num(o, r"Stratum MAE: ([\d.]+)", sum(errs) / n, 0.0051, "MAE")
        if te:
            num(o, r"TAG MAE: ([\d.]+)", sum(te) / len(te), 0.0051, "TAG MAE")
        for t in (2, 5, 10, 20):
            if not any(near(e, t) for e in errs):
                c = sum(e <= t for e in errs)
                num(o, rf"^  Within ±{t} BPM: (\d+)/{n}", c, 0, f"within {t}")
                num(o, rf"^  Within ±{t} BPM: \d+/{n} \(([\d.]+)%\)", 100 * c / n, 0.051, f"within {t} %")
            if te and not any(near(e, t) for e in te):
                num(o, rf"TAG within ±{t} BPM: (\d+)/{len(te)}", sum(e <= t for e in te), 0, f"TAG within {t}")
        for ref, label in (("GT", "Stratum Key accuracy vs GT"), ("TAG", "Stratum Key agreement vs TAG")):
            k = [r for r in rows if r["key_ref"] == ref]
            if k:
                num(o, label + r": ([\d.]+)%", 100 * sum(r["key_match"] == "YES" for r in k) / len(k), 0.051, label)
        sect = o[o.index("Stratum error distribution"):]
        tot = 0
        for lab, lo, hi in (("< 5", -1, 5), ("5-20", 5, 20), ("20-50", 20, 50), ("50-100", 50, 100), ("> 100", 100, 1e9)):
            mt = grab(sect, rf"^  {lab} BPM: (\d+)")
            tot += int(mt.group(1))
            if not any(near(e, lo) or near(e, hi) for e in errs):
                need(int(mt.group(1)) == sum(lo <= e < hi for e in errs), f"error distribution {lab}: report says {mt.group(1)}")
        need(tot == n, f"error distribution covers {tot} of {n} tracks")
        worst = [int(x) for x in re.findall(r"Track (\d+): GT=[^,]*, Pred=", o)]
        top = sorted(errs, reverse=True)[:10]
        got = [rows[t - 1000]["bpm_error"] for t in worst]
        need(got == top, f"worst errors listed {got}, the rows give {top}")
    elif which == "ratio":
        rc, o = run_main(mod("validation.analysis.analyze_ratio_buckets"), ["--file", str(p)])
        num(o, r"^n=(\d+)", n, 0, "ratios")
        got = {k: int(v) for k, v in re.findall(r"^  (\S+): (\d+)$", o, re.M)}
        need(sum(got.values()) == n, f"buckets hold {sum(got.values())} of {n} tracks")
        lo, hi = collections.Counter(), collections.Counter()
        for r in rows:
            q = r["bpm_pred"] / r["bpm_gt"]
            sure = [k for k, f in FACTORS.items() if abs(q - f) <= 0.08 - 1e-9]
            may = [k for k, f in FACTORS.items() if abs(q - f) <= 0.08 + 1e-9] or ["other"]
            if len(may) == 1:
                lo[may[0]] += len(sure) == 1 or may == ["other"]
            for k in may:
                hi[k] += 1
        for k in list(FACTORS) + ["other"]:
            need(lo[k] <= got.get(k, 0) <= hi[k], f"bucket {k}: report says {got.get(k, 0)}, the rows give {lo[k]}..{hi[k]}")
    elif which == "flags":
        tol = rng.choice([2.0, 4.0])
        rc, o = run_main(mod("validation.analysis.analyze_fallback_flags"), ["--file", str(p), "--tol", str(tol)])
        mr, pe = o[o.index("Multi-resolution:"):o.index("Percussive fallback:")], o[o.index("Percussive fallback:"):]

        def stat(text, pat, rs):
            mt = grab(text, pat + r"\s+n=\s*(\d+) acc=\s*([\d.nan]+)%\s+mae=\s*([\d.nan]+)")
            need(int(mt.group(1)) == len(rs), f"{pat}: report says n={mt.group(1)}, the rows give {len(rs)}")
            if rs:
                e = [r["bpm_error"] for r in rs]
                need(abs(float(mt.group(3)) - sum(e) / len(e)) <= 0.0051, f"{pat}: MAE {mt.group(3)}, the rows give {sum(e)/len(e):.4f}")
                if not any(near(x, tol) for x in e):
                    need(abs(float(mt.group(2)) - 100 * sum(x <= tol for x in e) / len(e)) <= 0.051, f"{pat}: accuracy {mt.group(2)}")
        stat(o, "OVERALL", rows)
        for text, pre in ((mr, "tempogram_multi_res"), (pe, "tempogram_percussive")):
            num(text, r"triggered: (\d+)/", sum(r[pre + "_triggered"] is True for r in rows), 0, pre + " triggered")
            num(text, r"used:\s+(\d+)/", sum(r[pre + "_used"] is True for r in rows), 0, pre + " used")
            u = [r for r in rows if r[pre + "_used"] is True]
            if u:
                stat(text, "when used", u)
            stat(text, "when NOT used", [r for r in rows if r[pre + "_used"] is not True])
    elif which == "keys":
        rc, o = run_main(mod("validation.analysis.analyze_key_errors"), ["--file", str(p)])
        kr = [r for r in rows if r["key_ref"] == "GT"]
        if kr:
            tm = lambda k: (NAMES.index(k.rstrip("m")), k.endswith("m"))
            bad = [(tm(r["key_gt"]), tm(r["key_pred"])) for r in kr if r["key_match"] == "NO"]
            num(o, rf"^Correct: (\d+)/{len(kr)}", len(kr) - len(bad), 0, "correct keys")
            num(o, rf"^Errors: (\d+)/{len(kr)}", len(bad), 0, "wrong keys")
            num(o, r"Mode errors[^:]*: (\d+)", sum(a[0] == b[0] for a, b in bad), 0, "mode errors")
            num(o, r"Tonic errors[^:]*: (\d+)", sum(a[0] != b[0] and a[1] == b[1] for a, b in bad), 0, "tonic errors")
            num(o, r"Both wrong: (\d+)", sum(a[0] != b[0] and a[1] != b[1] for a, b in bad), 0, "both wrong")
            d = collections.Counter()
            for a, b in bad:
                if a[0] != b[0]:
                    x = 7 * (a[0] - b[0]) % 12
                    d[min(x, 12 - x)] += 1
            got = {int(k): int(v) for k, v in re.findall(r"Distance (\d+): (\d+) errors", o)}
            need(got == dict(d), f"circle-of-fifths distances {got}, the rows give {dict(d)}")
            cm = collections.Counter((a[1], b[1]) for a, b in bad)
            gm = {(x == "minor", y == "minor"): int(v) for x, y, v in re.findall(r"GT (major|minor) -> Pred (major|minor): (\d+)", o)}
            need(gm == dict(cm), f"mode confusion {gm}, the rows give {dict(cm)}")
    elif which == "exemplars":
        top, xtol, a = 25, 0.08, []
        if rng.random() < 0.5:
            top = rng.choice([1, 3, 8, 12, 70])
            a += ["--top", str(top)]
        if rng.random() < 0.3:
            xtol = rng.choice([0.02, 0.15])
            a += ["--tol", str(xtol)]
        rc, o = run_main(mod("validation.analysis.analyze_exemplars"), ["--file", str(p)] + a)
        num(o, r"^n=(\d+)", n, 0, "rows")
        for name, lo, hi in BANDS:
            c = sum(lo <= r["bpm_gt"] < hi for r in rows)
            mt = re.search(rf"^{name}\s+n=(\d+)\s+\|", o, re.M)
            need((int(mt.group(1)) if mt else 0) == c, f"band {name}: report says {mt and mt.group(1)}, the rows give {c}")
        if not any(near(e, 2) for e in errs + te):
            both = [(r["bpm_error"], r["bpm_tag_error"]) for r in rows if r["bpm_tag_error"] != ""]
            num(o, r"^  TAG within ±2, Stratum not: (\d+)", sum(t <= 2 < e for e, t in both), 0, "TAG wins")
            num(o, r"^  Stratum within ±2, TAG not: (\d+)", sum(e <= 2 < t for e, t in both), 0, "Stratum wins")
        cuts = [("Worst ", "over"), ("per GT tempo band", "bands"), ("Ratio bucket breakdown", "ratio"), ("TAG within ±2, Stratum not (", "tag"), ("Stratum within ±2, TAG not (", "own"), ("Summary:", "end")]
        at = [o.index(t) for t, _ in cuts]
        need(at == sorted(at), "sections of the report are out of order")
        part = {k: o[at[i]:at[i + 1]] for i, (_, k) in enumerate(cuts[:-1])}

        def rows_in(text):
            got = []
            for line in text.splitlines():
                mt = re.match(r"\s*track=(\d+)\s.*GT=([\d.]+) pred=([\d.]+) err=([\d.]+) bucket=(\S+)\s+TAG=\s*(\S*)\s+tag_err=\s*(\S+)", line)
                if not mt:
                    continue
                r = rows[int(mt.group(1)) - 1000]
                for v, k, t in ((mt.group(2), "bpm_gt", 0.00051), (mt.group(3), "bpm_pred", 0.0051), (mt.group(4), "bpm_error", 0.0051)):
                    need(abs(float(v) - r[k]) <= t, f"listed row {line.strip()!r} does not show {k}={r[k]}")
                q = r["bpm_pred"] / r["bpm_gt"]
                may = [k for k, f in FACTORS.items() if abs(q - f) <= xtol + 1e-9]
                sure = [k for k in may if abs(q - FACTORS[k]) <= xtol - 1e-9]
                need(mt.group(5) in may or (mt.group(5) == "other" and not sure), f"listed row {line.strip()!r}: ratio {q:.4f} is not in bucket {mt.group(5)}")
                if r["bpm_tag"] == "":
                    need(mt.group(7) == "N/A", f"listed row {line.strip()!r}: the row has no tag")
                else:
                    need(abs(float(mt.group(6)) - r["bpm_tag"]) <= 0.0051 and abs(float(mt.group(7)) - r["bpm_tag_error"]) <= 0.0051, f"listed row {line.strip()!r}: tag {r['bpm_tag']} error {r['bpm_tag_error']}")
                mb = re.search(r"band=(\S+)", line)
                need(mb is None or any(b == mb.group(1) and lo <= r["bpm_gt"] < hi for b, lo, hi in BANDS), f"listed row {line.strip()!r}: wrong tempo band")
                ev["listed_rows"] += 1
                got.append(r)
            return got

        def ranked(got, pool, key, k, what):
            exp = sorted((r[key] for r in pool), reverse=True)[:k]
            need(len({r["track_id"] for r in got}) == len(got) and all(r in pool for r in got), f"{what}: rows that do not belong there, or twice")
            need([r[key] for r in got] == exp, f"{what}: listed errors {[r[key] for r in got]}, the rows give {exp}")

        ranked(rows_in(part["over"]), rows, "bpm_error", top, "worst overall")
        for sec in re.split(r"^\[", part["bands"], flags=re.M)[1:]:
            name = sec[:sec.index("]")]
            lo, hi = next((a, b) for x, a, b in BANDS if x == name)
            ranked(rows_in(sec), [r for r in rows if lo <= r["bpm_gt"] < hi], "bpm_error", min(10, top), f"worst of band {name}")
        if not any(near(e, 2) for e in errs + te):
            tagged = [r for r in rows if r["bpm_tag_error"] != ""]
            ranked(rows_in(part["tag"]), [r for r in tagged if r["bpm_tag_error"] <= 2 < r["bpm_error"]], "bpm_error", top, "TAG wins")
            ranked(rows_in(part["own"]), [r for r in tagged if r["bpm_error"] <= 2 < r["bpm_tag_error"]], "bpm_tag_error", top, "Stratum wins")
    elif which == "sweep":
        m = mod("validation.tools.sweep_tempogram_tuning").compute_metrics(p)
        need(m.n == n and abs(m.mae - sum(errs) / n) < 1e-9, f"metrics {m}")
        for t, g in ((2, m.acc2), (5, m.acc5), (10, m.acc10)):
            if not any(near(e, t) for e in errs):
                need(abs(g - sum(e <= t for e in errs) / n) < 1e-9, f"accuracy within {t}: {g}, the rows give {sum(e <= t for e in errs) / n}")
        ev["values_compared"] += 5
    else:
        m = mod("validation.analysis.diagnose_candidates")
        for _ in range(20):
            gt, tol = rng.uniform(60, 180), rng.choice([0.5, 2.0, 4.0])
            c = [{"bpm": round(rng.choice([gt + rng.uniform(-6, 6), rng.uniform(40, 240)]), 2)} for _ in range(rng.randint(0, 12))]
            if any(near(abs(x["bpm"] - gt), tol) for x in c):
                continue
            exp = next((i + 1 for i, x in enumerate(c) if abs(x["bpm"] - gt) <= tol), None)
            got = m.find_rank(c, gt, tol)
            need(got == exp, f"find_rank of {gt:.3f} within {tol} in {[x['bpm'] for x in c]} = {got}, expected {exp}")
            ev["values_compared"] += 1
    return (which, n, round(sum(errs), 6))


# ------------------------------------- candidate diagnosis and tuning sweeps (V06)

def case_v06(rng, tmp, ev):
    return (v06_diagnose if rng.random() < 0.6 else v06_sweep)(rng, Path(tmp), ev)


def v06_diagnose(rng, tmp, ev):
    res = tmp / "data" / "results"
    res.mkdir(parents=True)
    audio = tmp / "audio"
    audio.mkdir()
    stub = tmp / "stub.sh"
    stub.write_text(STUB)
    stub.chmod(0o755)
    tol = rng.choice([2.0, 2.0, 1.0, 4.0])
    topn = rng.choice([1, 5, 10, 15])
    only = rng.random() < 0.4
    plan, batch, results = {}, [], []
    ids = rng.sample(range(2, 900000), rng.randint(1, 14))
    for tid in ids:
        f = audio / f"{tid:06d}{rng.choice(['', ' (mix)'])}.mp3"
        gt = round(rng.uniform(50, 200), rng.choice([0, 2, 4]))
        err = rng.choice([0.0, 0.0, tol, 5.0, 20.0, 50.0, 100.0, round(rng.uniform(0, 4), 3), round(rng.uniform(0, 150), 3)])
        cands = []
        for _ in range(rng.randint(0, topn)):
            b = round(rng.choice([gt + rng.uniform(-1.5, 1.5) * tol, rng.uniform(40, 240), gt * 2, gt / 2]), 2)
            if not abs(abs(b - gt) - tol) < 1e-6:
                cands.append({"bpm": b, "score": round(rng.random(), 4), "selected": False})
        kind = rng.choice(["ok"] * 8 + ["nocands", "exit", "nojson", "broken"])
        out = {"bpm": gt, "key": "C", "bpm_candidates": cands}
        if kind == "nocands":
            cands = []
            if rng.random() < 0.5:
                del out["bpm_candidates"]
            else:
                out["bpm_candidates"] = None
        text = json.dumps(out, indent=rng.choice([None, 2]))
        if rng.random() < 0.3:
            text = "analysing...\n" + text + "\n"
        if kind == "nojson":
            text = "done\n"
        if kind == "broken":
            text = text.replace(":", "=", 1)
        (audio / (f.name + ".out")).write_text(text)
        (audio / (f.name + ".err")).write_text("")
        (audio / (f.name + ".rc")).write_text("3" if kind == "exit" else "0")
        ev["outcome:" + kind] += 1
        where = rng.choice(["both"] * 8 + ["batch", "results"])
        if where != "results":
            batch.append({"track_id": tid, "filename": str(f), "bpm_gt": gt, "key_gt": "", "genre": ""})
        if where != "batch":
            results.append({"track_id": tid, "bpm_gt": gt, "bpm_pred": gt + err, "bpm_error": err})
        if where == "both" and not (only and err <= tol):
            rank = next((i + 1 for i, c in enumerate(cands) if abs(c["bpm"] - gt) <= tol), None)
            plan[tid] = (str(f), gt, err, kind in ("ok", "nocands"), rank, cands)
    if not results:
        return ("diagnose", "empty")

    def put(path, rows, cols):
        with open(path, "w", newline="", encoding="utf-8") as fh:
            w = csv.DictWriter(fh, fieldnames=cols)
            w.writeheader()
            w.writerows(rows)

    bc = ["track_id", "filename", "bpm_gt", "key_gt", "genre"]
    if rng.random() < 0.4:
        put(res / "test_batch_20250101_120000.csv", [dict(b, bpm_gt=b["bpm_gt"] + 30) for b in batch], bc)
        put(res / "test_batch_20250607_080910.csv", batch, bc)
        ev["several_batches"] += 1
    else:
        put(res / rng.choice(["test_batch.csv", "test_batch_20240909_101112.csv"]), batch, bc)
    rcsv = tmp / "validation_results_20250607_090000.csv"
    put(rcsv, results, ["track_id", "bpm_gt", "bpm_pred", "bpm_error"])
    a = ["--data-path", str(tmp / "data"), "--results-csv", str(rcsv), "--binary", str(stub), "--top-n", str(topn), "--tol", str(tol)] + (["--only-misses"] if only else [])
    r = subprocess.run([sys.executable, "-B", "-m", "validation.analysis.diagnose_candidates"] + a, cwd=REPO, capture_output=True, text=True, timeout=120)
    need(r.returncode == 0, f"diagnose_candidates exited {r.returncode}: {r.stderr[-300:]}")
    for tid in ids:
        hit = list(audio.glob(f"{tid:06d}*.calls"))
        calls = hit[0].read_text().splitlines() if hit else []
        need(len(calls) == (tid in plan), f"track {tid} analysed {len(calls)} times, expected {int(tid in plan)}")
        if calls:
            got = calls[0].split("|")[2:]
            need(sorted(got) == sorted(["--json", "--bpm-candidates", "--bpm-candidates-top", str(topn)]) and got[got.index("--bpm-candidates-top") + 1] == str(topn), f"analyser called with {got}")
            ev["calls_checked"] += 1
    files = list(res.glob("candidate_diagnosis_*.csv"))
    rows = list(csv.DictReader(open(files[0], encoding="utf-8", newline=""))) if files else []
    need(len(files) == bool(plan), f"{len(files)} diagnosis files for {len(plan)} diagnosed tracks")
    c = collections.Counter(int(x["track_id"]) for x in rows)
    need(c == collections.Counter(list(plan)), f"diagnosed tracks {dict(c)}, expected {sorted(plan)}")
    for x in rows:
        f, gt, err, ok, rank, cands = plan[int(x["track_id"])]
        want = "ERROR" if not ok else "NO" if rank is None else "YES"
        need(x["filename"] == f and float(x["bpm_gt"]) == gt and float(x["prev_bpm_error"]) == err, f"diagnosis row {x} does not repeat the track's data {(f, gt, err)}")
        need(x["gt_in_topn"] == want, f"track {x['track_id']}: gt_in_topn={x['gt_in_topn']}, expected {want} (candidates {cands}, truth {gt} within {tol})")
        need(x["gt_rank"] == ("" if rank is None or not ok else str(rank)), f"track {x['track_id']}: rank {x['gt_rank']!r}, expected {rank}")
        if ok:
            need(json.loads(x["bpm_candidates_json"]) == cands, f"track {x['track_id']}: candidates {x['bpm_candidates_json']}, the analyser answered {cands}")
        ev["diagnosis_rows"] += 1
    valid = [v for v in plan.values() if v[3]]
    hits = sum(v[4] is not None for v in valid)
    mt = re.search(r"^GT in top-(\d+) \(±([\d.]+)\): (\d+)/(\d+) \(([\d.]+)%\)", r.stdout, re.M)
    need((mt is not None) == bool(valid), f"summary line {'missing' if valid else 'printed without a valid track'}")
    if mt:
        need((int(mt.group(1)), float(mt.group(2)), int(mt.group(3)), int(mt.group(4))) == (topn, tol, hits, len(valid)) and abs(float(mt.group(5)) - 100 * hits / len(valid)) <= 0.051, f"summary {mt.group(0)!r}, expected {hits}/{len(valid)}")
    if files:
        o = subprocess.run([sys.executable, "-B", "-m", "validation.analysis.analyze_candidate_diagnosis", "--file", str(files[0]), "--tol", str(tol)], cwd=REPO, capture_output=True, text=True, timeout=120)
        need(o.returncode == 0, f"analyze_candidate_diagnosis exited {o.returncode}: {o.stderr[-300:]}")
        mt = re.search(r"^n=(\d+) GT-in-topN \(±[\d.]+\): (\d+)/(\d+) \(([\d.]+)%\)", o.stdout, re.M)
        need((mt is not None) == bool(valid), "breakdown missing or made of failed tracks")
        if mt:
            need((int(mt.group(1)), int(mt.group(2)), int(mt.group(3))) == (len(valid), hits, len(valid)) and abs(float(mt.group(4)) - 100 * hits / len(valid)) <= 0.051, f"breakdown says {mt.group(0)!r}, expected {hits}/{len(valid)}")
            got = {k: (int(n), float(q)) for k, n, q in re.findall(r"^(<=5|5-20|20-50|50-100|>100)\s+n=\s*(\d+) GT-in-topN=\s*([\d.]+)%", o.stdout, re.M)}
            need(sum(n for n, _ in got.values()) == len(valid), f"the error classes hold {sum(n for n, _ in got.values())} of {len(valid)} tracks: {got}, errors {sorted(v[2] for v in valid)}")
            for k, lo, hi in (("<=5", -1, 5), ("5-20", 5, 20), ("20-50", 20, 50), ("50-100", 50, 100), (">100", 100, 1e9)):
                sub = [v for v in valid if lo < v[2] <= hi]
                g = got.get(k, (0, 0.0))
                need(g[0] == len(sub) and (not sub or abs(g[1] - 100 * sum(v[4] is not None for v in sub) / len(sub)) <= 0.051), f"error class {k}: {g}, the rows give {len(sub)}")
                ev["classes_compared"] += 1
    return ("diagnose", tuple(sorted(plan)), hits, topn, tol, only)


SWEEP_STUB = r"""#!/bin/sh
# stand-in for the validation runner: records the call, names the next prepared result file
d="$(dirname "$0")"
l="called"
for a in "$@"; do l="$l|$a"; done
printf '%s\n' "$l" >> "$d/calls"
k=$(wc -l < "$d/calls")
echo "Tracks tested: 3"
echo "Results saved to: $d/validation_results_$k.csv"
"""


def v06_sweep(rng, tmp, ev):
    stub = tmp / "python-stub"
    stub.write_text(SWEEP_STUB)
    stub.chmod(0o755)
    binary = tmp / "analyze_file"
    binary.write_text("")
    pick = lambda pool, k: rng.sample(pool, rng.randint(1, k))
    st, cb = pick([0.1, 0.2, 0.25, 0.3, 0.45], 2), pick([0.0, 0.06, 0.08, 0.15], 2)
    mel, nm, mk, fx = pick(["on", "off"], 2), pick([24, 40, 64], 2), pick([1, 2, 3], 2), pick([6000, 8000, 12000], 2)
    limit = rng.choice([1, 20, 50])
    topk = rng.choice([1, 2, 5, 40])
    full = rng.random() < 0.5
    grid = [(a, b, m, n, k, float(f)) for a in st for b in cb for m in mel for n in nm for k in mk for f in fx]
    nrun = len(grid) + (min(topk, len(grid)) if full else 0)
    data = {}
    for i in range(1, nrun + 1):
        e = [rng.choice([0.0, 1.0, 1.5, 2.0, 3.0, 5.0, 8.0, 10.0, 60.0]) for _ in range(rng.randint(1, 6))]
        with open(tmp / f"validation_results_{i}.csv", "w", newline="") as fh:
            w = csv.writer(fh)
            w.writerow(["track_id", "bpm_error"])
            w.writerows(enumerate(e))
        data[i] = (sum(x <= 2.0 for x in e) / len(e), sum(x <= 5.0 for x in e) / len(e), sum(e) / len(e))
    join = lambda v: ",".join(map(str, v))
    a = ["--binary", str(binary), "--max-tracks", str(limit), "--top-k", str(topk), "--support-thresholds", join(st), "--consensus-bonuses", join(cb),
         "--mel", join(mel), "--mel-n-mels", join(nm), "--mel-max-filter-bins", join(mk), "--mel-fmax-hz", join(fx)] + (["--rerun-full"] if full else [])
    code = f"import sys; sys.executable={str(stub)!r}; from validation.tools import sweep_tempogram_tuning as m; m.main()"
    r = subprocess.run([sys.executable, "-B", "-c", code] + a, cwd=REPO, capture_output=True, text=True, timeout=120)
    need(r.returncode == 0, f"sweep exited {r.returncode}: {r.stderr[-300:]}")
    calls = [x.split("|")[1:] for x in (tmp / "calls").read_text().splitlines()]
    need(len(calls) == nrun, f"{len(calls)} validation runs, the grid has {len(grid)} points and {nrun - len(grid)} reruns")

    def options(x):
        o = {}
        for i, y in enumerate(x):
            if y.startswith("--"):
                o[y] = x[i + 1] if i + 1 < len(x) and not x[i + 1].startswith("-") else True
        return o

    def point(x):
        o = options(x)
        return (float(o["--band-support-threshold"]), float(o["--band-consensus-bonus"]), "off" if "--no-tempogram-mel-novelty" in o else "on",
                int(o["--mel-n-mels"]), int(o["--mel-max-filter-bins"]), float(o["--mel-fmax-hz"]))

    first, again = calls[:len(grid)], calls[len(grid):]
    for i, x in enumerate(calls):
        o = options(x)
        need(o.get("-m", "validation.tools.run_validation") and "validation.tools.run_validation" in x and o.get("--binary") == str(binary), f"validation run called as {x}")
        need(o.get("--max-tracks") == (str(limit) if i < len(grid) else None), f"run {i + 1} of {len(grid)}+{len(again)} limited to {o.get('--max-tracks')} tracks")
    need(sorted(map(point, first)) == sorted(grid), f"grid points run {sorted(map(point, first))}, asked for {sorted(grid)}")
    board = re.findall(r"^\s*(\d+)\. acc2=([\d.]+)% acc5=([\d.]+)% mae=([\d.]+)\s+st=([\d.]+) cb=([\d.]+) mel=(\w+) nm=(\d+) k=(\d+) fmax=(\d+)\s+\(validation_results_(\d+)\.csv\)", r.stdout, re.M)
    need(len(board) == min(20, len(grid)), f"{len(board)} leaderboard lines for {len(grid)} runs")
    keys, used = [], set()
    for i, (rank, a2, a5, mae, *lab, no) in enumerate(board):
        k = int(no)
        need(int(rank) == i + 1 and 1 <= k <= len(grid) and k not in used, f"leaderboard line {i + 1}: rank {rank}, file {k}")
        used.add(k)
        d = data[k]
        need(abs(float(a2) - 100 * d[0]) <= 0.051 and abs(float(a5) - 100 * d[1]) <= 0.051 and abs(float(mae) - d[2]) <= 0.0051, f"leaderboard line {i + 1} says {a2}% {a5}% {mae}, the file gives {d}")
        p = point(first[k - 1])
        need(abs(float(lab[0]) - p[0]) <= 0.0051 and abs(float(lab[1]) - p[1]) <= 0.0051 and (lab[2], int(lab[3]), int(lab[4]), float(lab[5])) == p[2:], f"leaderboard line {i + 1} labelled {lab}, run with {p}")
        keys.append((-d[0], d[2]))
        ev["leaderboard_lines"] += 1
    need(keys == sorted((-data[k][0], data[k][2]) for k in range(1, len(grid) + 1))[:20], f"leaderboard order {keys}")
    if full:
        want = sorted((-data[k][0], data[k][2]) for k in range(1, len(grid) + 1))[:len(again)]
        by = {}
        for k, x in enumerate(first, 1):
            by.setdefault(point(x), []).append((-data[k][0], data[k][2]))
        need(len({point(x) for x in again}) == len(again), "a configuration was rerun twice")
        need([by[point(x)][0] for x in again] == want, f"rerun on the full batch: {[point(x) for x in again]}, not the best configurations in order")
        fr = re.findall(r"FULL acc2=([\d.]+)% acc5=([\d.]+)% mae=([\d.]+) \(csv=validation_results_(\d+)\.csv\)", r.stdout)
        need(len(fr) == len(again), f"{len(fr)} full-batch lines for {len(again)} reruns")
        for a2, a5, mae, no in fr:
            d = data[int(no)]
            need(int(no) > len(grid) and abs(float(a2) - 100 * d[0]) <= 0.051 and abs(float(a5) - 100 * d[1]) <= 0.051 and abs(float(mae) - d[2]) <= 0.0051, f"full-batch line {(a2, a5, mae, no)}, the file gives {d}")
        ev["reruns"] += len(again)
    ev["sweep_runs"] += nrun
    return ("sweep", len(grid), tuple(k for k in sorted(used)), full, topk)


SPECS = {
    "V02": (case_v02, 20000, 300000, 1,
            "generated ID3v2.3/2.4 tags (four text encodings, terminators, user-defined frames, binary frames across the 127/16383-byte size boundaries, padding), whole, cut at any byte, with damaged bytes, and byte soup; oracle: the fields the generator wrote",
            ["each dedicated frame occurs once per tag and a dedicated tempo frame holds a number; texts carry no leading or trailing zeros; no extended header, no unsynchronisation"]),
    "V03": (case_v03, 500, 2500, 8,
            "the real runner as a process over generated batches with a recording stand-in for the analyser that answers, fails, prints no or broken JSON, or delays; 1 to 16 jobs; oracle: exactly-once accounting over the calls and rows, recomputed errors, key verdicts and summary, and the options received",
            ["the batch file is well formed; the analyser's output holds one JSON object; spellings of keys are those of V01"]),
    "V04": (case_v04, 1500, 20000, 1,
            "generated tag collections carried through build_hllmr_metadata and prepare_test_batch, and generated FMA-style metadata with permuted and decoy columns, missing files and malformed rows; oracle: the set of eligible tracks and their ground truth",
            ["track ids in the metadata are distinct; file names hold no path separators"]),
    "V05": (case_v05, 4000, 60000, 1,
            "generated result files read by every report script; oracle: the statistics recomputed from the rows; values within 1e-6 of a threshold are not judged, ratios inside two buckets may be counted in either",
            ["result files have the columns run_validation writes and at least one row"]),
    "V06": (case_v06, 600, 6000, 8,
            "the real diagnosis and sweep programs as processes, with recording stand-ins for the analyser and the validation runner; generated batches, candidate lists, failing analysers, parameter grids and result files; oracle: exactly-once accounting over the calls, ranks, hit rates and error classes recomputed, leaderboard and reruns against the prepared results",
            ["no candidate lies within 1e-6 of the tolerance; the batch and result files are well formed"]),
}


def run_case(pid, i, seed, ev):
    rng = random.Random(f"{pid}/{seed}/{i}")
    tmp = tempfile.mkdtemp(prefix="vpval")
    try:
        return None, SPECS[pid][0](rng, tmp, ev)
    except Bad as e:
        return str(e), None
    except Exception as e:
        return f"{type(e).__name__}: {e}", None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        msg, _ = run_case(d["property"], d["case"], d["seed"], collections.Counter())
        print(msg or "held")
        return 1 if msg else 0
    pid, tier = sys.argv[1], sys.argv[2]
    fn, nq, nt, workers, rule, assume = SPECS[pid]
    n = int(os.environ.get("VMON_CASES", nq if tier == "quick" else nt))
    cap = float(os.environ.get("VMON_CAP_S", 240 if tier == "quick" else 3000))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    viol, seen, samples, ev, total = [], set(), [], collections.Counter(), 0
    lock = threading.Lock()

    def one(i):
        nonlocal total
        if len(viol) > 5 or time.time() - t0 > cap:
            return
        e = collections.Counter()
        msg, sig = run_case(pid, i, seed, e)
        with lock:
            total += 1
            ev.update(e)
            if msg:
                viol.append((i, msg))
            else:
                seen.add(sig)
                if i % max(1, n // 8) == 0:
                    samples.append({"case": i, "seen": [str(x)[:160] for x in sig]})

    if workers == 1:
        for i in range(n):
            one(i)
    else:
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            list(ex.map(one, range(n)))
    os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration",
               "coverage": {"evaluations": total, "distinct_nontrivial": len(seen), "rule": rule + "; distinct by the case's observed content",
                            "samples": samples or [{"note": "none"}], "events_observed": dict(ev)},
               "assumptions": assume, "wall_s": time.time() - t0, "violations": len(viol)}, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} {tier} seed={seed} cases={total} distinct={len(seen)} wall={time.time()-t0:.1f}s violations={len(viol)}")
    if os.environ.get("VMON_VERBOSE"):
        for k, v in sorted(ev.items()):
            print("   ", k, v)
    for i, msg in viol[:5]:
        q = f"{HERE}/evidence/replay/{pid}-{seed}-{i}.json"
        json.dump({"property": pid, "case": i, "seed": seed, "message": msg}, open(q, "w"))
        print(f"  case {i}: {msg}")
        print(f"VIOLATION property={pid} replay={q}")
    return 1 if viol else 0


sys.exit(main())

"""Runs /repo/listgen/listgen.py on every case of a block and compares it with a reference.

One JSON command per line on the standard input, one JSON answer per line on the standard output.
The generator runs as it is; its two compression and JSON libraries, which are not installed here,
are replaced by Python's own (plain text instead of zstd), its pool of processes by a loop.
"""
import collections, contextlib, io, importlib.util, itertools, json, math, os, shutil, sys, types, unicodedata
from pathlib import Path

OUT = sys.stdout


def load():
    orjson = types.ModuleType("orjson")
    orjson.loads, orjson.dumps = json.loads, lambda x: json.dumps(x).encode()
    orjson.JSONDecodeError = json.JSONDecodeError
    zstandard = types.ModuleType("zstandard")
    zstandard.open = lambda p, mode="r", newline=None, **_: io.open(p, mode, newline=newline, encoding="utf-8")
    sys.modules.update(orjson=orjson, zstandard=zstandard)

    class Pool:
        def __init__(self, *_):
            pass
        def __enter__(self):
            return self
        def __exit__(self, *_):
            pass
        def map(self, f, items, *_):
            return [f(i) for i in items]
        starmap = lambda self, f, items, *_: [f(*i) for i in items]
        imap = imap_unordered = map
        close = join = terminate = lambda self: None

    import multiprocessing
    multiprocessing.Pool = Pool
    spec = importlib.util.spec_from_file_location("listgen", "/repo/listgen/listgen.py")
    m = importlib.util.module_from_spec(spec)
    sys.modules["listgen"] = m
    sys.dont_write_bytecode = True
    spec.loader.exec_module(m)
    return m


# --- the reference, from the comments and the README ---------------------------------------------

TLDS = "com co. org net gov biz info today cz at dk de".split()


def is_word(c):
    return c.isalnum() or c == "_"


def ref_strip(word):
    """None: left open"""
    if not any("a" <= c <= "z" or "A" <= c <= "Z" for c in word):
        return ""
    # (the ends are those of the dashes too)
    while word and not is_word(word[0]):
        word = word[1:]
    while word and not is_word(word[-1]):
        word = word[:-1]
    word = word.replace("\u2013", "-")
    if not all(is_word(c) or c in "/-,.&'" for c in word) or "_" in word:
        return ""
    if "www." in word or any("." + t in word for t in TLDS):
        return ""
    return word


def ref_canonical(word):
    if any(c in "0123456789" for c in word):
        return ""
    for a, b in (("\u00e6", "ae"), ("\u00c6", "ae"), ("\u0153", "oe"), ("\u0152", "oe")):
        word = word.replace(a, b)
    word = "".join(c for c in unicodedata.normalize("NFKD", word) if not unicodedata.combining(c)).casefold()
    if not word.isascii():
        return ""
    while word and not word[0].isalpha():
        word = word[1:]
    while word and not word[-1].isalpha():
        word = word[:-1]
    return word


def ref_points(count, word):
    c = ref_canonical(word)
    if c == word:
        return 2 * count + 1
    if c == word.casefold():
        return count * 3 // 2 + 1
    if len(c) * 2 <= len(word):
        return int(count * 0.2 - 1)
    if sum("a" <= x <= "z" for x in word.casefold()) * 4 <= len(word) * 3:
        return int(count * 0.5 - 1)
    return count


BLOCKED = "aeo"


class Wrong(Exception):
    pass


def want(ok, *what):
    if not ok:
        raise Wrong(" ".join(str(w) for w in what))


def lines(path, columns):
    """The rows of a list"""
    rows = []
    for l in path.read_text("utf-8").split("\n")[:-1]:
        r = l.split("\t")
        want(len(r) == columns, path.name, "has the line", repr(l))
        rows.append(r)
    return rows


def check_list(path, points, forms):
    """The list at `path` ranks the canonical forms `points`, each written in one of `forms`."""
    rows = lines(path, 2)
    got = [ref_canonical(w) for _, w in rows]
    want(sorted(got) == sorted(points), path.name, "has", got, "not", sorted(points))
    total, least = sum(points.values()), min(points.values())
    for (value, word), c in zip(rows, got):
        want(word in forms[c], path.name, "has", repr(word), "for", c, "not one of", forms[c])
        exact = 1e6 * math.log(points[c] / total) / math.log(least / total)
        want(abs(int(value) - exact) <= 1.01, path.name, "values", repr(word), "at", value, "not", exact)
    p = [points[c] for c in got]
    want(p == sorted(p, reverse=True), path.name, "is in the order", list(zip(got, p)))


class Run:
    def __init__(self, m, scratch):
        self.m, self.scratch, self.n = m, Path(scratch), 0
        self.lists = []

    def base(self):
        d = self.scratch / f"base{self.n}"
        self.n += 1
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        return d

    def create(self, base, dictionary, title, body, cutoff, open_forms=False):
        """`title` and `body` as the counting left them: (word, count)"""
        points, forms = collections.Counter(), collections.defaultdict(set)
        steps = []
        for source, factor in ((dictionary, 1), (title, 3), (body, 1)):
            for w, n in source:
                c = ref_canonical(w)
                if c and c != BLOCKED:
                    points[c] += ref_points(n * factor, w)
                    forms[c].add(w)
            here = {ref_canonical(w) for w, _ in source}
            steps.append({c: points[c] for c in points if c in here and points[c]})
        final = {c: p for c, p in points.items() if p >= cutoff}
        # (lists of less than two words have no scale)
        if len(steps[0]) < 2 or len(steps[1]) < 2 or len(final) < 2:
            return False
        with contextlib.redirect_stdout(io.StringIO()):
            self.m.create_wordlist(base, cutoff=cutoff)
        check_list(base / f"wordlist.{cutoff}.txt", final, forms)
        check_list(base / "wiktionary.tsv", steps[0], forms)
        check_list(base / "wiki-titles.tsv", steps[1], forms)
        out = self.scratch / f"list{len(self.lists)}.tsv"
        shutil.copyfile(base / f"wordlist.{cutoff}.txt", out)
        self.lists.append(str(out))
        return True

    # --- the families ---

    def chars(self, lo, hi):
        """Every character in several places"""
        pairs, n = set(), 0
        for k in range(lo, hi):
            if 0xD800 <= k < 0xE000:
                continue
            c = chr(k)
            for word in (c, c + "ab", "a" + c + "b", "ab" + c, "A" + c):
                if not word.split() or word.split() != [word]:
                    continue
                n += 1
                pairs |= self.word(word)
        return n, sorted(pairs)

    def word(self, word):
        s = self.m.strip_word(word)
        r = ref_strip(word)
        want(r is None or s == r, f"strip_word({word!r}) = {s!r}, not {r!r}")
        c = self.m.canonicalize(s) if s else ""
        r = ref_canonical(s) if s else ""
        want(c == r, f"canonicalize({s!r}) = {c!r}, not {r!r}")
        return {(s, c)} if c else set()

    def words(self, alphabet, first, length):
        pairs, n = set(), 0
        for l in range(1, length + 1):
            for t in itertools.product(alphabet, repeat=l - 1):
                n += 1
                pairs |= self.word(first + "".join(t))
        return n, sorted(pairs)

    def articles(self, titles, bodies, second):
        """One or two articles, in one or two files"""
        n = 0
        for i, title in enumerate(titles):
            for body in bodies:
                for together in (False, True):
                    base = self.base()
                    arts = [[title, 0.5, body]] + ([second] if second else [])
                    files = [arts] if together or len(arts) == 1 else [[a] for a in arts]
                    for k, f in enumerate(files):
                        (base / f"enwiki-1.json.{k:02}.zst").write_text("".join(json.dumps(a) + "\n" for a in f), "utf-8")
                    with contextlib.redirect_stdout(io.StringIO()):
                        self.m.split_word_frequency(base)
                        self.m.word_frequency(base)
                    t, b = collections.Counter(), collections.Counter()
                    for a in arts:
                        if a[0] is None or a[2] is None:
                            continue
                        t.update(ref_strip(w) for w in a[0].split())
                        b.update(ref_strip(w) for w in self.ref_body(a[2]).split())
                    self.check_counts(base, t, b, (arts, len(files)))
                    shutil.rmtree(base)
                    n += 1
        return n, []

    @staticmethod
    def ref_body(body):
        mark = " Retrieved "
        i = body.find(mark)
        j = body.find(mark, i + len(mark)) if i >= 0 else -1
        return body[:j] if j >= 0 else body

    def check_counts(self, base, t, b, what):
        """title.txt and body.txt have the counts of every word, under one form"""
        out = []
        for name, ref in (("title", t), ("body", b)):
            rows = [(w, int(n)) for n, w in lines(base / f"{name}.txt", 2)]
            got, exp = collections.Counter(), collections.Counter()
            for w, n in rows:
                got[ref_canonical(w)] += n
            for w, n in ref.items():
                exp[ref_canonical(w)] += n
            del got[""], exp[""]
            want(+got == +exp, name, "counts", dict(got), "not", dict(exp), "for", what)
            ws = [w for w, _ in rows if ref_canonical(w)]
            want(len({ref_canonical(w) for w in ws}) == len(ws), name, "has several forms of a word:", rows, "for", what)
            out.append(rows)
        # the form that is kept
        for rows in out:
            for w, _ in rows:
                c = ref_canonical(w)
                if not c:
                    continue
                first = [x for x in t if ref_canonical(x) == c] and t or b
                plain = t[c] + b[c]
                allowed = {c if plain >= 0.01 * n else x for x, n in first.items() if ref_canonical(x) == c}
                want(w in allowed, "keeps", repr(w), "for", c, "not one of", allowed, "for", what)
        return out

    def counts(self, forms, choices, first, cutoffs, chunks):
        """Every assignment of counts to forms, in one or two chunks"""
        n = 0
        for rest in itertools.product(choices, repeat=len(forms) - len(first)):
            assignment = list(first) + list(rest)
            for order in (1, -1):
                base = self.base()
                t, b = collections.Counter({"zig": 7, "zag": 5}), collections.Counter({"zoo": 3})
                parts = [([], []) for _ in range(chunks)]
                for k, (f, (x, y)) in enumerate(list(zip(forms, assignment))[::order]):
                    if x:
                        t[f] += x
                    if y:
                        b[f] += y
                    for j, (p, q) in enumerate(parts):
                        sh = lambda v: v // 2 if j else v - (v // 2 if chunks == 2 else 0)
                        if sh(x):
                            p.append((f, sh(x)))
                        if sh(y):
                            q.append((f, sh(y)))
                parts[0][0].extend([("zig", 7), ("zag", 5)])
                parts[0][1].append(("zoo", 3))
                for j, (p, q) in enumerate(parts):
                    for rows, kind in ((p, "title"), (q, "body")):
                        (base / f"enwiki-1.json.{j:02}.{kind}-wordlist").write_text("".join(f"{v}\t{w}\n" for w, v in rows), "utf-8")
                with contextlib.redirect_stdout(io.StringIO()):
                    self.m.word_frequency(base)
                title, body = self.check_counts(base, t, b, (assignment, order))
                dictionary = [("zig", 100), ("zag", 50)]
                (base / "enwiktionary.txt").write_text("".join(f"{v}\t{ref_canonical(w)}\t{w}\n" for w, v in dictionary), "utf-8")
                for cutoff in cutoffs:
                    try:
                        n += self.create(base, dictionary, title, body, cutoff)
                    except Wrong as e:
                        raise Wrong(f"{e}, for the counts {dict(title)}, {dict(body)}, cutoff {cutoff}")
                shutil.rmtree(base)
        return n, []

    def dictionary(self, entries, size, first, score):
        """Every sequence of entries of a dictionary, through to the list"""
        n = 0
        for t in itertools.product(entries, repeat=size):
            ents = [first] + list(t)
            base = self.base()
            src = base / "kaikki.json.zst"
            src.write_text("".join(json.dumps(e) + "\n" for e in ents), "utf-8")
            with contextlib.redirect_stdout(io.StringIO()):
                self.m.wiktionary_wordlist(src).dump(base / "enwiktionary.txt")
            scores, forms = {}, {}
            def add(w, s):
                w = ref_strip(w)
                c = w and ref_canonical(w)
                if c:
                    scores[c] = max(scores.get(c, 0), s)
                    forms.setdefault(c, w)
            for e in ents:
                if e.get("lang_code") == "en" and "word" in e:
                    add(e["word"], 1000)
                    for f in e.get("forms", []):
                        f = f["form"]
                        if " " not in f and ref_canonical(f) == f:
                            add(f, 50)
            rows = [(c, int(s), w) for s, c, w in lines(base / "enwiktionary.txt", 3) if c]
            want({c: s for c, s, _ in rows} == scores and len(rows) == len(scores), "the dictionary's scores are", rows, "not", scores, "for", ents)
            want(all(forms[c] == w for c, _, w in rows), "the dictionary's forms are", rows, "not", forms, "for", ents)
            (base / "title.txt").write_text("9\tzig\n5\tzag\n", "utf-8")
            (base / "body.txt").write_text("", "utf-8")
            try:
                n += self.create(base, [(w, s) for _, s, w in rows], [("zig", 9), ("zag", 5)], [], score)
            except Wrong as e:
                raise Wrong(f"{e}, for the entries {ents}")
            n += 1
            shutil.rmtree(base)
        return n, []


def main():
    m = None
    for line in sys.stdin:
        j = json.loads(line)
        answer = dict(states=0, pairs=[], lists=[], error=None)
        try:
            m = m or load()
            r = Run(m, j["scratch"])
            answer["states"], answer["pairs"] = getattr(r, j["cmd"])(*j["args"])
            answer["lists"] = r.lists
        except Wrong as e:
            answer["error"] = str(e)
        except Exception as e:
            import traceback
            where = [f for f in traceback.extract_tb(e.__traceback__) if "listgen.py" in f.filename]
            if not where:
                traceback.print_exc()
                raise
            answer["error"] = f"{type(e).__name__}: {e} in {where[-1].name}"
        OUT.write(json.dumps(answer) + "\n")
        OUT.flush()


main()

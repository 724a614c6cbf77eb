#!/usr/bin/env python3
"""Development aid: mutate fieldx line by line and see which mutants the checks notice, and which of the others pass the tests.
usage: mutate.py <worker> <count> <seed> [file-regex]     results in /tmp/mut/<worker>.jsonl"""
import collections, json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, COUNT, SEED = sys.argv[1], int(sys.argv[2]), sys.argv[3]
FRE = sys.argv[4] if len(sys.argv) > 4 else "."
S, B = '/tmp/mutrepo_' + W, '/tmp/mutbuild_' + W
os.environ['FXDEV_REPO'] = S
os.environ['FXDEV_BUILD'] = B
sys.path.insert(0, V + '/spec')


def sh(c, **kw):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **kw)


SWAPS = [("true", "false"), ("is_none", "is_some"), ("&&", "||"), ("is_lazy", "is_optional"), ("is_copy", "is_clone"), ("is_sync", "is_async"), ("needs_serialize", "needs_deserialize"),
         ("impl_async", "impl_sync"), ("SeqCst", "Relaxed"), ("Accessor,", "AccessorMut,"), ("::Reader", "::Writer"), ("::Setter", "::Clearer"), ("::Clearer", "::Predicate"), ("::Builder", "::Setter"),
         ("Always", "None"), ("needs_default", "needs_new"), ("is_inner_mut", "is_optional"), ("needs_lock", "is_optional"), ("rwlock_read_guard", "rwlock_write_guard"), ("attributes_fn", "attributes"),
         ("is_setter_into", "is_builder_into"), ("is_skipped", "is_lazy"), ("mode_sync", "mode_async"), ("reader", "writer"), ("clearer", "predicate"), ("Exact", "Versatile"), ("accessor_mut", "accessor"),
         ("is_fallible", "is_lazy"), ("is_builder_required", "is_optional"), ("read", "write"), ("Some", "None"), ("and_then", "map"), ("or_else", "and_then"), ("is_plain", "is_sync"), ("Sync", "Async"),
         ("serialize", "deserialize"), ("from", "into"), ("public", "private"), ("orig", "name")]
DELS = [r"\.or_else\(\|[^|]*\| [^()]*(\([^()]*(\([^()]*\))*[^()]*\))*[^()]*\)", r"#attributes_fn", r"#vis_tok", r"#shortcut", r"#into_tok", r"#where_clause", r"\.filter\([^()]*(\([^()]*\))*[^()]*\)", r"!(?=[a-z(*])", r"\.take\(\)", r"\.clone\(\)", r"#or_default", r"#\( #\w+ \),?\*", r"#\( #\w+ \)\*", r"#\w+_attrs?\b", r"#attributes\w*"]
SUBS = [(r"unwrap_or\(false\)", "unwrap_or(true)"), (r"unwrap_or\(true\)", "unwrap_or(false)"), (r"map_or\(false", "map_or(true"), (r"map_or\(true", "map_or(false"), (r"if (?=[a-z(!])(?!let)", "if true || "), (r"if (?=[a-z(!])(?!let)", "if false && "),
        (r"#vis_tok ", "pub "), (r"\.fields\(\)", ".fields().iter().skip(1)"), (r"== ", "!= "), (r"for (\w+) in ([^{]+) \{", r"for \1 in (\2).into_iter().skip(1) {")]


def mutants():
    out = []
    for root in ("fieldx/src", "fieldx_derive/src", "fieldx_aux/src", "fieldx_derive_support/src"):
        for d, _, fs in os.walk(os.path.join(S, root)):
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), S)
                if not f.endswith(".rs") or not re.search(FRE, p):
                    continue
                for i, l in enumerate(open(os.path.join(S, p)).read().split("\n")):
                    c = l.strip()
                    if not c or c.startswith(("//", "use ", "#[", "pub use", "mod ", "pub mod")):
                        continue
                    for a, b in SWAPS:
                        for x, y in ((a, b), (b, a)):
                            for m in re.finditer((r"\b%s\b" if re.match(r"\w+$", x) else "%s") % re.escape(x), l):
                                out.append((p, i, l[:m.start()] + y + l[m.end():]))
                    for r in DELS:
                        for m in re.finditer(r, l):
                            out.append((p, i, l[:m.start()] + l[m.end():]))
                    for r, y in SUBS:
                        for m in re.finditer(r, l):
                            out.append((p, i, l[:m.start()] + m.expand(y) + l[m.end():]))
                    if c.endswith(";") and not c.startswith(("let ", "return", "type ", "fn ", "pub ")):
                        out.append((p, i, ""))
    out = sorted(set(out))
    random.Random(SEED).shuffle(out)
    return out


def tests():
    r = sh(f"sed 's#/repo#{S}#g' /opt/vp/test.sh >/tmp/mut/t_{W}.sh; sed 's#/repo#{S}#g' /opt/vp/env.sh >/tmp/mut/e_{W}.sh; sed -i 's#/opt/vp/env.sh#/tmp/mut/e_{W}.sh#' /tmp/mut/t_{W}.sh; timeout 600 bash /tmp/mut/t_{W}.sh /tmp/mut/o_{W}.json")
    try:
        o = json.load(open(f'/tmp/mut/o_{W}.json'))
    except OSError:
        return ["no result"]
    base = json.load(open('/opt/vp/BASELINE.json'))
    return sorted(set(base['stable']) - set(o['passed']))


def main():
    os.makedirs('/tmp/mut', exist_ok=True)
    if not os.path.isdir(S):
        sh('cp -a /repo %s' % S)
    sh('git -C %s fetch -q /repo HEAD; git -C %s reset -q --hard FETCH_HEAD' % (S, S))
    if not os.path.isdir(B):
        sh('cp -a %s/build %s' % (V, B))
    import build, check, probes
    kn = {(a, b) for a, b, _ in check.known()}
    ms = mutants()
    log = open('/tmp/mut/%s.jsonl' % W, 'a')
    print(len(ms), "mutants", flush=True)
    done = 0

    def run(every):
        ss = check.base_set(False)
        fs, st = check.run_specs(ss[::every], check.FULL, "m")
        a, x = probes.judge(probes.all_probes(False)[::every if every > 1 else 1], check.FULL, "mp")
        c, u = collections.Counter(), collections.Counter()
        for f in fs + a:
            for q in f.props:
                if (q, f.key()) not in kn:
                    (u if f.rule.startswith('undecided') else c)[q] += 1
        return c, u

    for p, i, new in ms:
        if done >= COUNT:
            break
        sh('git -C %s checkout -q -- .' % S)
        q = os.path.join(S, p)
        ls = open(q).read().split("\n")
        old = ls[i]
        ls[i] = new
        open(q, "w").write("\n".join(ls))
        r = {"file": p, "line": i + 1, "old": old.strip(), "new": new.strip()}
        try:
            c, u = run(4)
            if not c:
                c, u = run(1)
            r["caught"], r["undecided"] = dict(c), dict(u)
        except build.TreeError as e:
            r["compile"] = False
            log.write(json.dumps(r) + "\n"); log.flush()
            continue
        except Exception as e:
            r["error"] = repr(e)[:300]
        done += 1
        if not r.get("caught"):
            t = tests()
            r["tests_failed"] = len(t)
            r["some"] = t[:3]
        log.write(json.dumps(r) + "\n"); log.flush()
        print(done, p, i + 1, "caught" if r.get("caught") else r, flush=True)
    sh('git -C %s checkout -q -- .' % S)


main()

"""Runs scripts/reduce_compile_commands.py on every database of a file (one JSON case per line) and prints what it printed."""
import contextlib, io, json, os, runpy, sys, tempfile

script, cases = sys.argv[1:3]
root = os.path.dirname(os.path.dirname(os.path.abspath(script)))
tmp = tempfile.NamedTemporaryFile("w+", suffix=".json", dir=os.path.dirname(cases))


def run(args):
    out = io.StringIO()
    sys.argv = [script, *args]
    try:
        with contextlib.redirect_stdout(out):
            runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        if e.code not in (0, None):
            return f"exit {e.code}"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return out.getvalue()


for line in open(cases):
    c = json.loads(line)
    db = []
    for n, p in enumerate(c["db"], 1):
        e = dict(directory=root, file=os.path.normpath(os.path.join(root, p)), command=f"cc -DN={n} -DS='\u00e9 \"q\"' {p}")
        if n % 2 == 0:  # the other way of writing a command, and a field of its own
            e = dict(output=f"o{n}", arguments=["cc", f"-DN={n}", p], file=e["file"], directory=os.path.join(root, "_build"))
        db.append(e)
    tmp.seek(0)
    tmp.truncate()
    json.dump(db, tmp)
    tmp.flush()
    ex = ["--exclude_dirs", *c["excl"]] if c["excl"] else []
    full = run([tmp.name, *ex])
    names = run([tmp.name, "--names-only", *ex])
    try:
        got = [db.index(x) + 1 for x in json.loads(full)]
    except ValueError:
        got = full[-200:]
    print(json.dumps(dict(got=got, names=names.split() if not names.startswith("exit") else names)), flush=True)

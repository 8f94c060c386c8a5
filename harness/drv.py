"""Driver process: runs the cases of one property through the real code and records events."""
import importlib
import json
import sys
import traceback
import warnings


def main():
    pid, func, cases, out = sys.argv[1:5]
    try:
        import logging
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        mod = importlib.import_module(f"harness.props.{pid.lower()}")
        fn = getattr(mod, func)
        todo = [json.loads(x) for x in open(cases)]
        fh = open(out, "w")
    except BaseException:  # noqa
        traceback.print_exc()
        sys.exit(3)
    for i, case in todo:
        fh.write(json.dumps({"begin": i}) + "\n")
        fh.flush()
        hdr = {}
        try:
            r = fn(case)
            if isinstance(r, tuple):
                hdr, r = r
            line = json.dumps({"i": i, "ev": r, "hdr": hdr})
        except Exception as e:  # the answer of the real code could not be used
            tb = traceback.format_exc()
            line = json.dumps({"i": i, "ev": [{"harness_exc": repr(e)[:300], "tb": tb[-1500:]}],
                               "hdr": {}})
        fh.write(line + "\n")
        fh.flush()
    fh.close()


if __name__ == "__main__":
    main()

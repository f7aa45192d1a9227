"""Put the code under test and Hypothesis on sys.path."""
import os
import sys
import warnings

HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
WHEELS = "/opt/veriftools/wheels"


def boot():
    warnings.simplefilter("ignore")
    repo = os.environ.get("VF_REPO", "/repo")
    src = os.path.join(repo, "src")
    sys.path.insert(0, src)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(HYP)  # after the venv: its numpy must not be used
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            import glob
            sys.path.remove(HYP)
            sys.path.extend(sorted(glob.glob(os.path.join(WHEELS, "hypothesis-*.whl"))
                                   + glob.glob(os.path.join(WHEELS, "sortedcontainers-*.whl"))
                                   + glob.glob(os.path.join(WHEELS, "attrs-*.whl"))))
            import hypothesis  # noqa: F401
    import rigeo
    got = os.path.realpath(rigeo.__file__)
    if not got.startswith(os.path.realpath(src) + os.sep):
        print(f"rigeo was imported from {got}, not from {src}", file=sys.stderr)
        sys.exit(2)

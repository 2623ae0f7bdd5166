import sys
from . import boot
if __name__ == "__main__":
    scratch = boot.reexec()
    if len(sys.argv) > 2 and sys.argv[1] == "exec":
        import runpy
        runpy.run_path(sys.argv[2], run_name="__main__")
    else:
        from . import main
        sys.exit(main.main(sys.argv[1:], scratch))

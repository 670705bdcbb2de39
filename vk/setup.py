"""setup_cmd: build the library, the runtime and their dependencies in every configuration."""
from . import build as B


def main():
    for variant in ("std", "dbg", "nostd", "cg", "nostd-cg", "all"):
        w = B.Workspace("setup", variant)
        w.add("g0", {"src/main.rs": "fn main() { rt::main_loop(&[]) }\n"})
        w.finish()
        errors, _ = w.build()
        if errors:
            print("setup: %s does not build" % variant)
            return 1
    return 0

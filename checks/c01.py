import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.runner import main  # noqa: E402
from checks import auth  # noqa: E402

if __name__ == "__main__":
    main(lambda ck: auth.check(ck, "C01"), "C01")

"""A scripted USI engine.  play.json beside it: one script per connection, each a list with the reply to the k-th line:
[lines to print, seconds-on-the-shared-clock to take (ms), die].  What it receives goes to log.<connection>."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(sys.argv[0]))
for k in range(1000):
    try:
        fd = os.open(os.path.join(here, "log.%d" % k), os.O_CREAT | os.O_EXCL | os.O_WRONLY)
        break
    except FileExistsError:
        pass
with open(os.path.join(here, "play.json"), encoding="utf-8") as f:
    plays = json.load(f)
play = plays[k] if k < len(plays) else []
os.write(fd, (json.dumps({"cwd": os.path.realpath(os.getcwd()) == os.path.realpath(here), "argv": len(sys.argv)}) + "\n").encode())
n = 0
while True:
    line = sys.stdin.buffer.readline()
    if not line:
        os.write(fd, b'{"eof": 1}\n')
        os._exit(0)
    os.write(fd, (json.dumps({"line": line.decode("utf-8", "replace")}) + "\n").encode())
    out, ms, die = play[n] if n < len(play) else [[], 0, 0]
    n += 1
    if out:
        os.write(1, "".join(x + "\n" for x in out).encode("utf-8"))
    if die or line.strip() == b"quit":
        os._exit(0)

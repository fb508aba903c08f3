"""A USI engine played by the recorder: passes lines between its pipes and the socket ../sock."""
import os
import select
import socket
import sys

here = os.path.dirname(os.path.abspath(sys.argv[0]))
os.chdir(os.path.dirname(here))
s = socket.socket(socket.AF_UNIX)
s.connect("sock")
s.sendall((os.path.basename(here) + "\n").encode())
while True:
    for f in select.select([0, s], [], [])[0]:
        data = os.read(0, 65536) if f == 0 else s.recv(65536)
        if not data:
            os._exit(0)
        if f == 0:
            s.sendall(data)
        else:
            os.write(1, data)

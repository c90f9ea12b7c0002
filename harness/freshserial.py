"""A process that knows nothing but node.serializer reads a document.

usage: freshserial < {"doc": .., "conf": ..}   prints the dumped trees
"""
import json
import sys

from node.serializer import deserialize


def main():
    x = json.load(sys.stdin)
    try:
        new = deserialize(x['doc'])
        news = new if isinstance(new, list) else [new]
    except Exception as e:
        print(json.dumps(['EXC', type(e).__name__, str(e)[:200]]))
        return
    from harness import world_serial
    w = world_serial.World(x['conf'])
    print(json.dumps(['ok', [w.dump(n) for n in news]]))


if __name__ == '__main__':
    main()

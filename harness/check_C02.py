"""C02: files moved by the index are found where it puts them and come back; everything else stays in the sources."""
import sources


def run(c):
    sources.run(c, True)

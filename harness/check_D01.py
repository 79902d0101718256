"""D01: sources of several versions: each version builds what it unpacked, no version disturbs an earlier one."""
import sources


def run(c):
    sources.run(c, False)

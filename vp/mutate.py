"""Mutations of text, driven by integers."""
FRAGS = ["'", '"', ";", "\n;", "\n", " ", "\t", "#", "_", "_x", "$", "[", "]", "{", "}", ",", ":", "loop_", "data_", "save_",
         "stop_", "global_", "data_x", "save_f", "'''", '"""', "\\", "\n;\\\n", "\n_a 1\n", "\nloop_\n_p\n_q\n1 2 3\n", "\n;\n",
         "LOOP_ ", "DATA_Q\n", " # c\n", "?", "\n;;\n", "''", " ' ", "''''", "\n\n", "-", "a'b", "_\n", "data_\n", "\x0b", "\x0c", "\x00",
         "\x1a", "\x7f", u"\u00e9", u"\u2028", u"\ufeff", u"\U0001f600", u"\ufffe", "#\\#CIF_2.0\n", "#\\#CIF_1.1\n", "{'a':1}", "[1 2]", "[1,2]"]


def mutate(text, ops, asciionly=False):
    for kind, pos, k in ops:
        n = len(text)
        p = pos % (n + 1)
        frag = FRAGS[k % len(FRAGS)]
        if asciionly and any(ord(c) > 126 or (ord(c) < 32 and c not in "\n\t") for c in frag):
            frag = " "
        if kind == 0:
            text = text[:p] + frag + text[p:]
        elif kind == 1:
            text = text[:p] + text[p + 1 + k % 5:]
        elif kind == 2:
            text = text[:p] + frag + text[p + len(frag):]
        elif kind == 3:                      # delete a line
            lines = text.split("\n")
            del lines[pos % len(lines)]
            text = "\n".join(lines)
        elif kind == 4:                      # duplicate a line
            lines = text.split("\n")
            i = pos % len(lines)
            lines[i:i] = [lines[(pos + k) % len(lines)]]
            text = "\n".join(lines)
        elif kind == 5:                      # truncate
            text = text[:p]
        elif kind == 6:                      # delete a word
            words = text.split(" ")
            del words[pos % len(words)]
            text = " ".join(words)
        elif kind == 7:                      # swap case
            text = text[:p] + text[p:p + 6].swapcase() + text[p + 6:]
    return text

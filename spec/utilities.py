@holds("L01")
def find_end_index(start_index, lines):
    return lines.index("", start_index) if "" in lines[start_index:] else None

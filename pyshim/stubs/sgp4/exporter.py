def export_tle(satrec):
    return satrec._lines

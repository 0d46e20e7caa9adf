# matplotlib is not installed here; pymatching imports it only for Matching.draw(), which no check calls.
class MatplotlibDeprecationWarning(DeprecationWarning):
    pass

"""The part of stim's Python API that PyMatching's loaders touch (stim itself is not available offline): models and
circuits are opaque objects; a circuit is given together with its detector error model."""


class DetectorErrorModel:
    def __init__(self, text=""):
        self._text = text

    def __str__(self):
        return self._text

    def __repr__(self):
        return "stim.DetectorErrorModel('''\n%s\n''')" % self._text

    @property
    def num_detectors(self):
        raise NotImplementedError

    def flattened(self):
        raise NotImplementedError


class Circuit:
    def __init__(self, text="", model=None, decomposed=None):
        self._text, self._model, self._decomposed = text, model, decomposed

    def __str__(self):
        return self._text

    def detector_error_model(self, *, decompose_errors=False, **kwargs):
        return DetectorErrorModel(self._decomposed if decompose_errors else self._model)

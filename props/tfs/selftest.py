"""Run the repository's own tests of TensorFlow modules on the stand-in:  selftest.py [-v] module_test …"""
import importlib
import os
import sys
import unittest

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", ".."))
import numpy as np
from absl import flags
from absl.testing import absltest, parameterized
from props import tfs

tf = tfs.install()


def n(x):
    if isinstance(x, (list, tuple)):
        return np.asarray([n(y) for y in x])
    return tfs.N(tfs.C(x)) if not isinstance(x, np.ndarray) else tfs.N(x)


class TestCase(absltest.TestCase):
    def assertAllEqual(self, a, b, msg=None):
        np.testing.assert_array_equal(n(a), n(b), msg or "")

    def assertAllClose(self, a, b, rtol=1e-6, atol=1e-6, msg=None):
        if isinstance(a, dict):
            for k in b:
                self.assertAllClose(a[k], b[k], rtol, atol)
            return
        x, y = n(a), n(b)
        assert x.shape == y.shape, (x.shape, y.shape)
        np.testing.assert_allclose(x, y, rtol=rtol, atol=atol)

    assertAllCloseAccordingToType = assertAllClose

    def assertAllInRange(self, t, lo, hi, **k):
        assert np.all((n(t) >= lo) & (n(t) <= hi))

    def assertNotAllClose(self, a, b, **k):
        try:
            self.assertAllClose(a, b, **k)
        except AssertionError:
            return
        raise AssertionError("close")

    def assertNotAllEqual(self, a, b):
        assert not np.array_equal(n(a), n(b))

    def assertAllGreater(self, a, v):
        assert np.all(n(a) > v)

    def assertAllLess(self, a, v):
        assert np.all(n(a) < v)

    def assertAllLessEqual(self, a, v):
        assert np.all(n(a) <= v)

    def assertAllGreaterEqual(self, a, v):
        assert np.all(n(a) >= v)

    def assertAllInSet(self, a, s):
        assert set(n(a).reshape(-1).tolist()) <= set(s)

    def assertNear(self, a, b, err, msg=None):
        assert abs(float(a) - float(b)) <= err, (a, b)

    def assertArrayNear(self, a, b, err, msg=None):
        np.testing.assert_allclose(n(a), n(b), rtol=0, atol=err)

    def assertShapeEqual(self, a, b):
        assert n(a).shape == tuple(n(b).shape)

    def assertDTypeEqual(self, t, d):
        assert tfs.as_dtype(n(t).dtype) == d

    def evaluate(self, x):
        return tfs._map_structure(lambda t: t.numpy() if isinstance(t, (tfs.Tensor, tfs.Variable)) else t, x)

    def assertRaisesOpError(self, e):
        return self.assertRaises(Exception)

    def session(self, *a, **k):
        return tfs._scope(self)

    cached_session = session

    def __getattr__(self, n):
        if n == "test_session":
            return self.session
        raise AttributeError(n)

    def assertProtoEquals(self, a, b, msg=None):
        if isinstance(a, str):
            from google.protobuf import text_format
            a = text_format.Parse(a, type(b)())
        assert a == b, (a, b)

    def run(self, *a, **k):
        if a and not isinstance(a[0], unittest.TestResult):
            return self.evaluate(a[0])
        return super().run(*a, **k)


def main():
    for t in (tf.test, tf.compat.v1.test, tf.compat.v2.test):
        t.TestCase, t.main = TestCase, absltest.main
    from props import v2stub
    v2stub.load("component")
    v = "-v" in sys.argv
    mods = [m for m in sys.argv[1:] if m != "-v"]
    flags.FLAGS(["x"])
    ok = True
    for m in mods:
        try:
            mod = importlib.import_module("waymo_open_dataset." + m)
        except Exception as e:
            print("%-50s import: %r" % (m, e))
            if v:
                raise
            continue
        s = unittest.defaultTestLoader.loadTestsFromModule(mod)
        r = unittest.TextTestRunner(stream=open(os.devnull, "w")).run(s)
        bad = r.errors + r.failures
        print("%-55s run %d bad %d" % (m, r.testsRun, len(bad)))
        for t, e in bad if v else bad[:2]:
            ok = False
            print("   ", str(t)[:70], "|", e.strip().split("\n")[-1][:150])
            if v:
                print(e)
    return ok


if __name__ == "__main__":
    main()

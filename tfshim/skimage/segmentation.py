"""relabel_sequential as in scikit-image."""
import numpy as np


class ArrayMap:
    def __init__(self, in_values, out_values):
        self.in_values, self.out_values = np.asarray(in_values), np.asarray(out_values)
        self._d = dict(zip(self.in_values.tolist(), self.out_values.tolist()))

    def __call__(self, a):
        a = np.asarray(a)
        return np.array([self._d.get(x, 0) for x in a.ravel().tolist()], self.out_values.dtype).reshape(a.shape)

    def __getitem__(self, i):
        if np.isscalar(i):
            return self.out_values.dtype.type(self._d.get(int(i), 0))
        if isinstance(i, slice):
            start, stop, step = i.indices(len(self))
            i = np.arange(start, stop, step)
        return self(np.asarray(i))

    def __len__(self):
        return int(self.in_values.max()) + 1 if self.in_values.size else 0

    def __array__(self, dtype=None):
        out = np.zeros(len(self), self.out_values.dtype)
        out[self.in_values] = self.out_values
        return out if dtype is None else out.astype(dtype)


def relabel_sequential(label_field, offset=1):
    label_field = np.asarray(label_field)
    if offset <= 0:
        raise ValueError("Offset must be strictly positive.")
    if label_field.size and label_field.min() < 0:
        raise ValueError("Cannot relabel array that contains negative values.")
    offset = int(offset)
    in_vals = np.unique(label_field)
    if in_vals.size and in_vals[0] == 0:
        out_vals = np.concatenate([[0], np.arange(offset, offset + len(in_vals) - 1)])
    else:
        out_vals = np.arange(offset, offset + len(in_vals))
    input_type = label_field.dtype
    required = np.min_scalar_type(int(out_vals[-1]) if len(out_vals) else 0)
    if np.dtype(required).itemsize < input_type.itemsize:
        output_type = input_type
    elif input_type.itemsize < np.dtype(required).itemsize:
        output_type = required
    else:
        output_type = required if (len(out_vals) and out_vals[-1] > np.iinfo(input_type).max) else input_type
    out_array = np.empty(label_field.shape, output_type)
    out_vals = out_vals.astype(output_type)
    fw = ArrayMap(in_vals, out_vals)
    out_array[...] = fw(label_field)
    return out_array, fw, ArrayMap(out_vals, in_vals)

"""A table of Dask is a table of pandas here."""
import pandas as pd


class DataFrame(pd.DataFrame):
    @property
    def _constructor(self):
        return DataFrame

    def compute(self):
        return pd.DataFrame(self)


def from_pandas(df, npartitions=None, **kw):
    return DataFrame(df)

PLANTS = []


def plant(id, property, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


plant(
    "extents-stick", "C01",
    [("plotter.py", "        extents = {} | initial_extents\n", "        extents = initial_extents\n")],
    "two plots with the same PlotConfig, the second with chains covering a different range",
    "automatic extents are written into the user's PlotConfig.extents",
    """
    df = pd.DataFrame({"a": np.linspace(0, 1, 400), "b": np.linspace(5, 6, 400)})
    cfg = PlotConfig(extents={"a": (0.0, 2.0)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).set_plot_config(cfg)
    cc.plotter.plot_distributions()
    assert cfg.extents == {"a": (0.0, 2.0)}, cfg.extents
    """,
)
plant(
    "shallow-samples", "C02",
    [("chain.py", "        return v.copy()\n", "        return v.copy(deep=False)\n")],
    "the caller edits its table in place after building the chain",
    "the chain shares the column buffers of the caller's table",
    """
    df = pd.DataFrame({"a": np.arange(10.0), "b": np.arange(10.0) ** 2})
    c = Chain(samples=df, name="x")
    df.loc[3, "a"] = 1e9
    df["b"].values.setflags(write=True)
    df["b"].values[4] = -1e9
    assert c.samples["a"].max() == 9.0 and c.samples["b"].min() == 0.0, c.samples
    """,
)
plant(
    "hash-order-columns", "C03",
    [("plotter.py",
      "            res = []  # Doing it without set to preserve order\n            for chain in chains:\n                for column in chain.plotting_columns:\n                    if column not in res:\n                        res.append(column)\n            return res\n",
      "            if len(chains) == 1:\n                return chains[0].plotting_columns\n            return list({column for chain in chains for column in chain.plotting_columns})\n")],
    "two chains and a different hash seed",
    "the order of the panels depends on string hashing",
    """
    import subprocess
    code = '''
    import numpy as np, pandas as pd
    from chainconsumer import *
    rng = np.random.default_rng(0)
    names = ["omega", "sigma", "h0", "w0", "wa", "alpha"]
    df = pd.DataFrame(rng.normal(size=(200, 6)), columns=names)
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).add_chain(Chain(samples=df + 1, name="y"))
    print([list(v) for v in cc.analysis.get_summary().values()])
    '''
    import textwrap
    outs = set()
    for seed in "012345":
        r = subprocess.run([sys.executable, "-c", textwrap.dedent(code)], env={**os.environ, "PYTHONHASHSEED": seed}, capture_output=True, text=True)
        assert r.returncode == 0, r.stderr
        outs.add(r.stdout)
    assert len(outs) == 1, outs
    """,
)
plant(
    "alpha-leaks", "C04",
    [("chainconsumer.py", "            local_config = global_config.copy()\n", "            local_config = global_config\n")],
    "several chains of which an earlier one shows contour labels",
    "the alpha reduction for a labelled chain carries over to every later chain",
    """
    df = pd.DataFrame({"a": np.arange(10.0), "b": np.arange(10.0) ** 2})
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=df, name="x", show_contour_labels=True)).add_chain(Chain(samples=df, name="y"))
    f = cc._get_final_chains()
    assert abs(f["y"].shade_alpha - 1 / np.sqrt(2)) < 1e-12, f["y"].shade_alpha
    """,
)
plant(
    "plain-mean-deviance", "C10",
    [("comparisons.py", "                mean_d = np.average(d, weights=chain.weights)\n", "                mean_d = np.mean(d)\n")],
    "chains with unequal weights",
    "the mean deviance of the DIC ignores the weights",
    """
    rng = np.random.default_rng(1)
    x = rng.normal(size=300)
    w = rng.uniform(0.1, 5, size=300)
    def dics(i):
        cc = ChainConsumer()
        cc.add_chain(Chain(samples=pd.DataFrame({"a": x, "weight": w, "log_posterior": -0.5 * x**2}), name="w"))
        cc.add_chain(Chain(samples=pd.DataFrame({"a": x, "log_posterior": -0.5 * x**2}), name="u"))
        return cc.comparison.dic()
    d = dics(0)
    lp = -0.5 * x**2
    def ref(w):
        m = np.average(x, weights=w)
        return 2 * np.average(-2 * lp, weights=w) - (-2 * lp[np.argmin(abs(x - m))])
    r = {"w": ref(w), "u": ref(np.ones(300))}
    lo = min(r.values())
    for k in r:
        assert abs(d[k] - (r[k] - lo)) < 1e-9, (d, r)
    """,
)
plant(
    "padding-floor", "C12",
    [("helpers.py", "        width = upper - lower\n", "        width = max(upper - lower, 1e-3)\n")],
    "a parameter whose values span less than 0.001",
    "the padding of the histogram range has a floor in absolute parameter units",
    """
    rng = np.random.default_rng(1)
    x = rng.normal(size=4000)
    def hdi(s):
        ch = Chain(samples=pd.DataFrame({"a": x * s}), name="x", statistics=SummaryStatistic.HDI)
        cc = ChainConsumer().add_chain(ch)
        return cc.analysis.get_parameter_summary(ch, "a").array / s
    assert np.allclose(hdi(1.0), hdi(2.0**-30), rtol=1e-3, atol=1e-6), (hdi(1.0), hdi(2.0**-30))
    """,
)
plant(
    "aic-clamped", "C14",
    [("comparisons.py", "                c_cor = 1.0 * n_free * (n_free + 1) / (n_data - n_free - 1)\n", "                c_cor = 1.0 * n_free * (n_free + 1) / max(n_data - n_free - 1, 1.0)\n")],
    "more free parameters than effective data points",
    "the small-sample correction is clamped",
    """
    cc = ChainConsumer()
    df = pd.DataFrame({"a": np.arange(10.0), "log_posterior": -np.arange(10.0)})
    cc.add_chain(Chain(samples=df, name="x", num_free_params=4, num_eff_data_points=4.5))
    cc.add_chain(Chain(samples=df, name="y", num_free_params=1, num_eff_data_points=100.0))
    a = cc.comparison.aic()
    ref = {"x": 8 + 40 / -0.5, "y": 2 + 4 / 98}
    for k in ref:
        assert abs(a[k] - (ref[k] - min(ref.values()))) < 1e-9, (a, ref)
    """,
)
plant(
    "old-rc-resaved", "C25",
    [("plotter.py", "        if self.config.usetex is not None:\n            plt.rc(", "        if self.config.usetex is not None:\n            self.usetex_old = matplotlib.rcParams[\"text.usetex\"]\n            plt.rc(")],
    "restoring after two plots made with a configuration that changes the setting",
    "the remembered text setting is overwritten by a later plot",
    """
    plt.rcParams["text.usetex"] = True
    cc = ChainConsumer().set_plot_config(PlotConfig(usetex=False))
    cc.plotter.set_rc_params()
    cc.plotter.set_rc_params()
    cc.plotter.restore_rc_params()
    assert plt.rcParams["text.usetex"] is True
    """,
)
plant(
    "sorted-table-labels", "C26",
    [("analysis.py", "        parameters = [self.parent.plotter.config.get_label(c) for c in named_matrix.columns]\n", "        parameters = sorted({self.parent.plotter.config.get_label(c) for c in named_matrix.columns})\n")],
    "columns that are not in alphabetical order",
    "rows and columns of the matrix table are labelled with the wrong parameters",
    """
    rng = np.random.default_rng(1)
    df = pd.DataFrame({"z": rng.normal(size=500) * 10, "b": rng.normal(size=500)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    t = cc.analysis.get_covariance_table("x", columns=["z", "b"])
    row = next(l for l in t.splitlines() if l.strip().startswith("z") and "&" in l)
    assert float(row.split("&")[1].strip()) > 50, t
    """,
)
plant(
    "add-then-check", "C30",
    [("chainconsumer.py", '        assert key not in self._chains, f"Chain with name {key} already exists!"\n        self._chains[key] = chain\n',
      '        before = len(self._chains)\n        self._chains[key] = chain\n        assert len(self._chains) > before, f"Chain with name {key} already exists!"\n')],
    "catching the error of a duplicate name and carrying on",
    "the refused chain has already replaced the registered one",
    """
    df = pd.DataFrame({"a": np.arange(10.0)})
    one, two = Chain(samples=df, name="x"), Chain(samples=df + 5, name="x")
    cc = ChainConsumer().add_chain(one)
    try:
        cc.add_chain(two)
        raise SystemExit("accepted")
    except AssertionError:
        pass
    assert cc.get_chain("x") is one
    """,
)
plant(
    "legend-defaults-stick", "C01",
    [("plotting/config.py", "        return default | self.legend_kwargs\n", "        for key, value in default.items():\n            self.legend_kwargs.setdefault(key, value)\n        return self.legend_kwargs\n")],
    "a figure with a legend drawn from a PlotConfig the user keeps using",
    "the legend defaults are written into the user's legend_kwargs",
    """
    df = pd.DataFrame(np.random.default_rng(0).normal(size=(500, 2)), columns=["a", "b"])
    kw = {"loc": "upper left"}
    cfg = PlotConfig(legend_kwargs=kw)
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).add_chain(Chain(samples=df + 1, name="y")).set_plot_config(cfg)
    cc.plotter.plot()
    assert cfg.legend_kwargs == {"loc": "upper left"}, cfg.legend_kwargs
    """,
)
plant(
    "summary-cache", "C03",
    [("analysis.py", '        self._logger = logging.getLogger("chainconsumer")\n', '        self._logger = logging.getLogger("chainconsumer")\n        self._summary_cache: dict[tuple, Bound | None] = {}\n'),
     ("analysis.py", "        return callback(chain, column)\n", "        key = (chain.name, column, chain.statistics, chain.summary_area)\n        if key not in self._summary_cache:\n            self._summary_cache[key] = callback(chain, column)\n        return self._summary_cache[key]\n")],
    "a chain replaced by another of the same name between two summaries",
    "the summary of the replaced chain is reported for the new one",
    """
    rng = np.random.default_rng(0)
    df = pd.DataFrame({"a": rng.normal(size=2000)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    cc.analysis.get_summary()
    cc.remove_chain("x").add_chain(Chain(samples=df + 100, name="x"))
    assert cc.analysis.get_summary()["x"]["a"].center > 90
    """,
)
plant(
    "palette-repeats", "C05",
    [("color_finder.py", "        for index in [4, 7, 2, 8, 3, 6, 1, 5]:\n", "        for index in [4, 7, 2, 8, 3, 6, 1, 4]:\n")],
    "more than seventy chains without a colour",
    "the eighth round of palette colours repeats the first",
    """
    df = pd.DataFrame({"a": np.arange(10.0)})
    cc = ChainConsumer()
    for i in range(80):
        cc.add_chain(Chain(samples=df, name=str(i)))
    cols = [c.color for c in cc.plotter._sanitise_chains(None)]
    assert len(set(cols)) == 80, len(set(cols))
    """,
)
plant(
    "kde-grid-order", "C07",
    [("helpers.py", '        xx, yy = np.meshgrid(x_centers, y_centers, indexing="ij")\n', "        xx, yy = np.meshgrid(x_centers, y_centers)\n")],
    "a chain with KDE contours whose two parameters have different shapes",
    "the two-dimensional KDE surface is transposed relative to its axes",
    """
    from chainconsumer.helpers import get_smoothed_histogram2d
    rng = np.random.default_rng(0)
    df = pd.DataFrame({"a": rng.normal(size=1500), "b": rng.exponential(size=1500)})
    h, x, y = get_smoothed_histogram2d(Chain(samples=df, name="x", kde=1.0, bins=10), "a", "b")
    i, j = np.unravel_index(h.argmax(), h.shape)
    assert abs(x[i]) < 0.7 and y[j] < 1.0, (x[i], y[j])
    """,
)
plant(
    "truth-at-zero", "C08",
    [("plotting/truth.py", "            if val_x is not None:\n                ax.axvline", "            if val_x:\n                ax.axvline")],
    "a truth value of exactly zero",
    "no line is drawn for a truth at zero",
    """
    df = pd.DataFrame(np.random.default_rng(0).normal(size=(500, 2)), columns=["a", "b"])
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).add_truth(Truth(location={"a": 0.0}))
    fig = cc.plotter.plot_distributions()
    assert any(len(l.get_xdata()) == 2 and l.get_xdata()[0] == 0 == l.get_xdata()[1] for l in fig.axes[0].lines)
    """,
)
plant(
    "empty-label-falls-back", "C09",
    [("plotting/config.py", "        return self.labels.get(column, column)\n", "        return self.labels.get(column) or column\n")],
    "a parameter whose configured label is the empty string",
    "the column name is shown although a label is configured",
    """
    df = pd.DataFrame(np.random.default_rng(0).normal(size=(500, 2)), columns=["a", "b"])
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).set_plot_config(PlotConfig(labels={"a": ""}))
    fig = cc.plotter.plot_distributions()
    assert fig.axes[0].get_xlabel() == "", fig.axes[0].get_xlabel()
    """,
)
plant(
    "cloud-colour-prefix", "C10",
    [("plotting/contours.py", '        kwargs = {"c": chain.color_data[::skip], "cmap": chain.cmap}\n', '        kwargs = {"c": chain.color_data[: -(-x.size // skip)], "cmap": chain.cmap}\n')],
    "a cloud of more than twice num_cloud samples",
    "the cloud's colours are taken from other rows than its points",
    """
    from chainconsumer.plotting import plot_cloud
    rng = np.random.default_rng(0)
    df = pd.DataFrame({"a": rng.normal(size=1000), "b": rng.normal(size=1000)})
    df["c"] = df["a"] * 2
    fig, ax = plt.subplots()
    h = plot_cloud(ax, Chain(samples=df, name="x", plot_cloud=True, color_param="c", num_cloud=100), "a", "b")["c"]
    off = np.asarray(h.get_offsets())
    assert np.allclose(off[:, 0] * 2, h.get_array())
    """,
)
plant(
    "empty-cell-threshold", "C11",
    [("plotting/contours.py", "    hist[hist == 0] = 1e-16\n", "    hist[hist < 1e-3] = 1e-16\n")],
    "a chain whose weights are small numbers",
    "cells below an absolute weight are treated as empty, so contours depend on the scale of the weights",
    """
    from chainconsumer.plotting import plot_contour
    rng = np.random.default_rng(0)
    df = pd.DataFrame({"a": rng.normal(size=3000), "b": rng.normal(size=3000), "weight": 1.0})
    out = []
    for f in (1.0, 1e-6):
        fig, ax = plt.subplots()
        got = []
        ax.contour = lambda x, y, v, **k: got.append(v) or plt.Axes.contour(ax, x, y, v, **k)
        plot_contour(ax, Chain(samples=df.assign(weight=f), name="x", color="b"), "a", "b")
        out.append(got[0])
    assert np.allclose(out[0], out[1], atol=0.02)
    """,
)
plant(
    "kde-jitter", "C12",
    [("kde.py", "        cov = np.atleast_2d(np.cov(dx.T, aweights=weights))\n", "        cov = np.atleast_2d(np.cov(dx.T, aweights=weights)) + 1e-10 * np.eye(self.num_dim)\n")],
    "a KDE of a parameter whose values are tiny",
    "the kernel covariance has an absolute floor in squared parameter units",
    """
    rng = np.random.default_rng(0)
    v = rng.normal(size=2000)
    out = []
    for f in (1.0, 1e-7):
        cc = ChainConsumer().add_chain(Chain(samples=pd.DataFrame({"a": v * f}), name="x", kde=1.0))
        b = cc.analysis.get_summary()["x"]["a"]
        out.append([b.lower / f, b.center / f, b.upper / f])
    assert np.allclose(out[0], out[1], rtol=1e-3, atol=1e-3), out
    """,
)
plant(
    "zero-params-missing", "C13",
    [("comparisons.py", "            if p is None or n_data is None or n_free is None:\n                missing = \"\"\n                if p is None:\n                    missing += \"posterior, \"\n                if n_data is None:\n                    missing += \"num_eff_data_points, \"\n                if n_free is None:\n                    missing += \"num_free_params, \"\n\n                logger.warning(f\"You need to set {missing[:-2]} for chain {name} to get the BIC\")\n",
      "            if p is None or not n_data or not n_free:\n                missing = \"\"\n                if p is None:\n                    missing += \"posterior, \"\n                if not n_data:\n                    missing += \"num_eff_data_points, \"\n                if not n_free:\n                    missing += \"num_free_params, \"\n\n                logger.warning(f\"You need to set {missing[:-2]} for chain {name} to get the BIC\")\n")],
    "a model without free parameters",
    "a chain with zero free parameters is left out of the BIC",
    """
    df = pd.DataFrame({"a": np.arange(10.0), "log_posterior": -np.arange(10.0)})
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=df, name="null", num_free_params=0, num_eff_data_points=50))
    cc.add_chain(Chain(samples=df, name="one", num_free_params=1, num_eff_data_points=50))
    assert sorted(cc.comparison.bic()) == ["null", "one"], cc.comparison.bic()
    """,
)
plant(
    "custom-posterior-is-parameter", "C17",
    [("chain.py", "            if c in {self.weight_column, self.posterior_column}:\n", "            if c == self.weight_column:\n")],
    "a posterior column under a custom name",
    "the posterior column becomes a parameter",
    """
    df = pd.DataFrame({"a": np.arange(10.0), "lnp": -np.arange(10.0)})
    c = Chain(samples=df, name="x", posterior_column="lnp")
    assert c.data_columns == ["a"], c.data_columns
    """,
)
plant(
    "divide-forgets-posterior-name", "C18",
    [("chain.py", '            options = self.model_dump(exclude={"samples", "name", "walkers"})\n', '            options = self.model_dump(exclude={"samples", "name", "walkers", "posterior_column"})\n')],
    "a chain with a custom posterior column that is divided",
    "the walkers' chains treat the posterior column as a parameter",
    """
    df = pd.DataFrame({"a": np.arange(10.0), "lnp": -np.arange(10.0)})
    c = Chain(samples=df, name="x", posterior_column="lnp", walkers=2)
    assert [x.posterior_column for x in c.divide()] == ["lnp", "lnp"]
    """,
)
plant(
    "geweke-last-dropped", "C19",
    [("diagnostic.py", "self.geweke(c, first=first, last=last, threshold=threshold)", "self.geweke(c, first=first, threshold=threshold)")],
    "several chains and a window other than the default",
    "the group verdict uses the default end window",
    """
    rng = np.random.default_rng(0)
    bad = False
    for s in range(30):
        rng = np.random.default_rng(s)
        mk = lambda: pd.DataFrame(rng.normal(size=(1200, 4)).cumsum(axis=0) * 0.02 + rng.normal(size=(1200, 4)), columns=list("abcd"))
        cc = ChainConsumer().add_chain(Chain(samples=mk(), name="x", walkers=4)).add_chain(Chain(samples=mk(), name="y", walkers=4))
        both = cc.diagnostic.geweke(last=0.1, threshold=0.3).results
        one = {n: bool(cc.diagnostic.geweke(n, last=0.1, threshold=0.3)) for n in ("x", "y")}
        bad |= {k: bool(v) for k, v in both.items()} != one
    assert not bad
    """,
)
plant(
    "half-open-errorbar", "C20",
    [("plotter.py", "                    if fv is None or fv.all_none:\n                        continue\n                    if fv.lower is not None and fv.upper is not None:\n                        diff = np.abs(np.diff(fv.array))\n                        ax.errorbar([fv.center], 0, xerr=[[diff[0]], [diff[1]]], fmt=\"o\", color=colour)\n",
      "                    if fv is None or fv.all_none:\n                        continue\n                    ax.errorbar([fv.center], 0, xerr=[[fv.center - fv.lower], [fv.upper - fv.center]], fmt=\"o\", color=colour)\n")],
    "an error-bar summary of a parameter that is not constrained",
    "absent limits are used in arithmetic",
    """
    df = pd.DataFrame({"a": np.concatenate([np.random.default_rng(0).normal(size=10000), np.random.default_rng(1).normal(size=10000) + 4])})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    b = cc.analysis.get_summary()["x"]["a"]
    assert b.lower is None, b
    cc.plotter.plot_summary(errorbar=True)
    """,
)
plant(
    "empty-fill-dropped", "C21",
    [("analysis.py", "                    if p in column_results:\n                        arr.append(self.get_parameter_text(column_results[p], wrap=True))\n                    else:\n                        arr.append(blank_fill)\n",
      "                    if p in column_results:\n                        arr.append(self.get_parameter_text(column_results[p], wrap=True))\n                    elif blank_fill:\n                        arr.append(blank_fill)\n")],
    "a transposed table with an empty blank_fill and a chain lacking a parameter",
    "the empty cell is dropped and the row is one cell short",
    """
    rng = np.random.default_rng(0)
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=pd.DataFrame({"a": rng.normal(size=2000), "b": rng.normal(size=2000)}), name="x"))
    cc.add_chain(Chain(samples=pd.DataFrame({"a": rng.normal(size=2000)}), name="y"))
    t = cc.analysis.get_latex_table(transpose=True, blank_fill="")
    rows = [l for l in t.splitlines() if l.rstrip().endswith("\\\\\\\\") and "&" in l]
    assert len({l.count("&") for l in rows}) == 1, rows
    """,
)
plant(
    "central-peak-of-edges", "C22",
    [("analysis.py", "        xs, ys, cs = self._get_smoothed_histogram(chain, parameter)\n\n        c_to_x = interp1d(cs, xs)\n        max_index = ys.argmax()\n        x = xs[max_index]\n\n        vals = [0.5 - 0.5 * chain.summary_area, 0.5 + 0.5 * chain.summary_area]\n        xvals = c_to_x(vals)\n\n        return Bound(lower=xvals[0], center=x, upper=xvals[1])\n",
      "        xs, ys, cs = self._get_smoothed_histogram(chain, parameter)\n\n        c_to_x = interp1d(cs, xs)\n        vals = [0.5 - 0.5 * chain.summary_area, 0.5 + 0.5 * chain.summary_area]\n        xvals = c_to_x(vals)\n\n        inside = (xs >= xvals[0]) & (xs <= xvals[1])\n        x = xs[inside][ys[inside].argmax()]\n        return Bound(lower=xvals[0], center=x, upper=xvals[1])\n")],
    "a distribution whose peak lies outside its central interval",
    "the centre is the highest density inside the interval instead of the density peak",
    """
    rng = np.random.default_rng(0)
    df = pd.DataFrame({"a": np.concatenate([rng.uniform(0, 0.02, size=1500), rng.uniform(0, 10, size=8500)])})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x", statistics=SummaryStatistic.MAX_CENTRAL, smooth=0))
    b = cc.analysis.get_summary()["x"]["a"]
    assert b.center < 0.5, b
    """,
)
plant(
    "summary-default-dpi", "C24",
    [("plotter.py", "                if not errorbar:\n                    ax.set_ylim(0, 1.1 * max_vals[p])\n\n        add_watermark(fig, None, fig_size, self.config, size_scale=0.8)\n        self._save_fig(fig, filename, dpi=self.config.dpi)\n",
      "                if not errorbar:\n                    ax.set_ylim(0, 1.1 * max_vals[p])\n\n        add_watermark(fig, None, fig_size, self.config, size_scale=0.8)\n        self._save_fig(fig, filename)\n")],
    "a summary plot saved with a configured resolution",
    "plot_summary saves at the default resolution",
    """
    from chainconsumer import PlotConfig
    df = pd.DataFrame({"a": np.random.default_rng(0).normal(size=500)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).set_plot_config(PlotConfig(dpi=50))
    got = []
    matplotlib.figure.Figure.savefig = lambda self, f, **k: got.append(k["dpi"])
    cc.plotter.plot_summary(filename=os.path.join(_scratch.name, "x.png"))
    assert got == [50], got
    """,
)
plant(
    "font-size-set", "C25",
    [("plotter.py", '            plt.rc("font", family=("serif" if self.config.serif else "sans-serif"))\n', '            plt.rc("font", family=("serif" if self.config.serif else "sans-serif"), size=self.config.label_font_size)\n')],
    "a matplotlib font size other than the configured label size",
    "the library changes matplotlib's global font size and never restores it",
    """
    df = pd.DataFrame({"a": np.random.default_rng(0).normal(size=500)})
    plt.rcParams["font.size"] = 7.0
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    cc.plotter.plot_distributions()
    cc.plotter.restore_rc_params()
    assert plt.rcParams["font.size"] == 7.0
    """,
)
plant(
    "legend-text-shifted", "C27",
    [("plotter.py", "                for text, chain in zip(leg.get_texts(), chains_to_show_on_legend, strict=False):\n", "                for text, chain in zip(leg.get_texts(), base.chains, strict=False):\n")],
    "a chain hidden from the legend ahead of one that is shown",
    "legend texts take the colour of other chains",
    """
    rng = np.random.default_rng(0)
    df = pd.DataFrame(rng.normal(size=(600, 2)), columns=["a", "b"])
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=df, name="x", color="#ff0000", show_label_in_legend=False))
    cc.add_chain(Chain(samples=df, name="y", color="#00ff00"))
    fig = cc.plotter.plot()
    leg = [a.get_legend() for a in fig.axes if a.get_legend()][0]
    assert [t.get_color() for t in leg.get_texts()] == ["#00ff00"], [t.get_color() for t in leg.get_texts()]
    """,
)
plant(
    "levels-of-labelled", "C28",
    [("plotting/contours.py", "    sigma_cumsum = 1.0 * sigma[i_sort].cumsum()\n    sigma_cumsum /= sigma_cumsum[-1]\n", "    sigma_cumsum = 1.0 * sigma[i_sort].cumsum()\n    sigma_cumsum -= sigma_cumsum[0]\n    sigma_cumsum /= sigma_cumsum[-1]\n")],
    "a surface whose densest cell holds a sizeable part of the probability",
    "the densest cell is not counted, so every contour encloses too much",
    """
    from chainconsumer.plotting import plot_contour
    rng = np.random.default_rng(0)
    df = pd.DataFrame({"a": rng.normal(size=3000), "b": rng.normal(size=3000)})
    fig, ax = plt.subplots()
    got = []
    ax.contour = lambda x, y, v, **k: got.append(v) or plt.Axes.contour(ax, x, y, v, **k)
    plot_contour(ax, Chain(samples=df, name="x", color="b", bins=5, smooth=0), "a", "b")
    assert got[0].min() > 0
    """,
)
plant(
    "discard-thinned", "C29",
    [("chain.py", "sampler.get_chain(flat=True, thin=thin, discard=discard)", "sampler.get_chain(flat=True, thin=thin, discard=discard // thin * thin)")],
    "both thinning and burn-in removal with a burn-in that is no multiple of the thinning",
    "fewer burn-in steps are removed than requested",
    """
    class S:
        def get_chain(self, flat=False, thin=1, discard=0):
            got.append((flat, thin, discard))
            return np.random.default_rng(0).normal(size=(100, 2))
    got = []
    Chain.from_emcee(S(), ["a", "b"], "x", thin=3, discard=10)
    assert got == [(True, 3, 10)], got
    """,
)
plant(
    "zero-spacing-ignored", "C31",
    [("plotter.py", "        if spacing is None:\n            spacing = 1.0 if n < 6 else 0.0\n", "        if not spacing:\n            spacing = 1.0 if n < 6 else 0.0\n")],
    "a configured spacing of zero",
    "spacing=0 is replaced by the automatic spacing",
    """
    df = pd.DataFrame(np.random.default_rng(0).normal(size=(500, 2)), columns=["a", "b"])
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).set_plot_config(PlotConfig(spacing=0.0))
    fig = cc.plotter.plot()
    assert fig.subplotpars.wspace == 0.0, fig.subplotpars.wspace
    """,
)
plant(
    "copy-unweighted-only", "C02",
    [("chain.py", "        return v.copy()\n", "        return v if \"weight\" in v.columns else v.copy()\n")],
    "a table that already has a weight column, and mean shifting",
    "the chain shares the caller's table and shifts its columns in place",
    """
    df = pd.DataFrame({"a": np.linspace(3, 5, 50), "weight": 1.0})
    keep = df.copy()
    Chain(samples=df, name="x", shift_params=True)
    assert df.equals(keep), df.head(2)
    """,
)
plant(
    "falsy-override-dropped", "C04",
    [("chainconsumer.py", "                chain._apply(**self._global_chain_override.get_user_specified_dump())\n", "                chain._apply(**{k: v for k, v in self._global_chain_override.get_user_specified_dump().items() if v is not False})\n")],
    "an override that switches an option off (shade=False)",
    "overrides that switch an option off are ignored",
    """
    df = pd.DataFrame({"a": np.random.default_rng(0).normal(size=500)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x", shade=True)).set_override(ChainConfig(shade=False))
    f = cc._get_final_chains()["x"]
    assert f.shade is False, f.shade
    """,
)
plant(
    "bic-by-chain-length", "C14",
    [("comparisons.py", "                bics[name] = n_free * np.log(n_data) - 2 * np.max(p)\n", "                bics[name] = n_free * np.log(min(n_data, p.size)) - 2 * np.max(p)\n")],
    "a chain with fewer samples than effective data points",
    "BIC uses the number of samples in place of the number of data points",
    """
    df = pd.DataFrame({"a": np.linspace(0, 1, 20), "log_posterior": -np.linspace(0, 1, 20)})
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=df, name="x", num_free_params=1, num_eff_data_points=1000))
    cc.add_chain(Chain(samples=df, name="y", num_free_params=3, num_eff_data_points=1000))
    b = cc.comparison.bic()
    assert abs(b["y"] - b["x"] - 2 * np.log(1000)) < 1e-9, b
    """,
)
plant(
    "best-fit-single-precision", "C15",
    [("chain.py", "        argmax = self.samples[self.posterior_column].argmax()\n", "        argmax = self.samples[self.posterior_column].astype(\"float32\").argmax()\n")],
    "log posteriors that differ by less than single precision resolves, e.g. around -1e9",
    "an earlier row with a lower posterior is reported as best fit",
    """
    df = pd.DataFrame({"a": [1.0, 2.0, 3.0], "log_posterior": [-1e9, -1e9 + 2, -1e9 + 1]})
    assert Chain(samples=df, name="x").get_max_posterior_point().coordinate["a"] == 2.0
    """,
)
plant(
    "unbounded-posterior-accepted", "C16",
    [("chain.py", "assert np.all(np.isfinite(self.samples[column])), f", "assert np.all(np.isfinite(self.samples[column]) | (column == self.posterior_column and np.isneginf(self.samples[column]))), f")],
    "a non-finite log posterior",
    "a chain with an infinite log posterior is accepted",
    """
    df = pd.DataFrame({"a": [1.0, 2.0, 3.0], "log_posterior": [-1.0, -np.inf, -2.0]})
    try:
        Chain(samples=df, name="x")
    except ValueError:
        pass
    else:
        raise AssertionError("accepted")
    """,
)
plant(
    "divide-drops-colour-options", "C18",
    [("chain.py", "            if \"color\" in options:\n                options.pop(\"color\")\n", "            for key in [k for k in options if k.startswith(\"color\")]:\n                options.pop(key)\n")],
    "a chain with a colour parameter divided by walker",
    "the colour parameter is lost with the colour",
    """
    df = pd.DataFrame({"a": np.arange(10.0), "b": np.arange(10.0)})
    parts = Chain(samples=df, name="x", walkers=2, plot_cloud=True, color_param="b").divide()
    assert all(p.color_param == "b" for p in parts), [p.color_param for p in parts]
    """,
)
plant(
    "grid-power-2d", "C23",
    [("helpers.py", "    if chain.power is not None:\n        hist = hist**chain.power\n\n    x_centers", "    if chain.power is not None and not chain.grid:\n        hist = hist**chain.power\n\n    x_centers")],
    "a gridded chain with a power",
    "two-dimensional densities of grids ignore the power",
    """
    from chainconsumer.helpers import get_smoothed_histogram2d
    a, b = np.meshgrid(np.linspace(0, 1, 8), np.linspace(0, 1, 8))
    w = 1.0 + a + b
    df = pd.DataFrame({"a": a.ravel(), "b": b.ravel(), "weight": w.ravel()})
    h = [get_smoothed_histogram2d(Chain(samples=df, name="x", grid=True, power=p), "a", "b")[0] for p in (1.0, 2.0)]
    r = [x / x.sum() for x in (h[0] ** 2, h[1])]
    assert np.allclose(*r), np.abs(r[0] - r[1]).max()
    """,
)
plant(
    "registry-strips-names", "C30",
    [("chainconsumer.py", "        key = chain.name\n", "        key = chain.name.strip()\n")],
    "a name with surrounding blanks",
    "the chain is registered under a name other than its own: fetching or removing it by its name fails",
    """
    df = pd.DataFrame({"a": np.arange(10.0)})
    cc = ChainConsumer()
    ch = Chain(samples=df, name="x ")
    cc.add_chain(ch)
    assert cc.get_chain("x ") is ch
    cc.remove_chain(ch)
    """,
)
plant(
    "pm-for-similar-errors", "C32",
    [("analysis.py", "        if use_pm and upper_error_text == lower_error_text:\n", "        if use_pm and abs(upper_error - lower_error) <= 0.05 * lower_error:\n")],
    "a bound whose two errors differ by less than five percent but display differently",
    "one +/- value is shown for two different errors",
    """
    from chainconsumer.analysis import Bound
    t = ChainConsumer().analysis.get_parameter_text(Bound(lower=10.0 - 2.40, center=10.0, upper=10.0 + 2.49))
    assert "pm" not in t, t
    """,
)
plant(
    "errorbar-about-mean", "C33",
    [("plotter.py", "                        diff = np.abs(np.diff(fv.array))\n", "                        diff = np.abs(fv.array[[0, 2]] - fv.array.mean())\n")],
    "an asymmetric summary drawn as an error bar",
    "the error bar does not end at the summarised limits",
    """
    df = pd.DataFrame({"a": np.random.default_rng(0).gamma(1.5, 1, size=5000), "b": np.random.default_rng(1).normal(size=5000)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    fig = cc.plotter.plot_summary(errorbar=True)
    s = cc.analysis.get_summary()["x"]["a"]
    segs = [c.get_segments()[0][:, 0] for ax in fig.axes for c in ax.collections if hasattr(c, "get_segments") and len(c.get_segments())]
    assert any(np.allclose(sorted(x), [s.lower, s.upper]) for x in segs), (s, segs)
    """,
)
plant(
    "range-stops-at-missing", "C34",
    [("plotter.py", "            if column not in chain.samples:\n                continue  # pragma: no cover\n", "            if column not in chain.samples:\n                break  # pragma: no cover\n")],
    "a chain without the parameter registered before one that has it",
    "chains after one that lacks the parameter do not count for its range",
    """
    r = np.random.default_rng(0)
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=pd.DataFrame({"a": r.normal(size=500), "b": r.normal(size=500)}), name="x"))
    cc.add_chain(Chain(samples=pd.DataFrame({"b": r.normal(size=500)}), name="y"))
    cc.add_chain(Chain(samples=pd.DataFrame({"a": r.normal(50, 1, size=500), "b": r.normal(size=500)}), name="z"))
    fig = cc.plotter.plot_distributions(columns=["a"])
    assert fig.axes[0].get_xlim()[1] > 50, fig.axes[0].get_xlim()
    """,
)
plant(
    "cloud-colour-head", "C35",
    [("plotting/contours.py", "        kwargs = {\"c\": chain.color_data[::skip], \"cmap\": chain.cmap}\n", "        kwargs = {\"c\": chain.color_data[: len(x[::skip])], \"cmap\": chain.cmap}\n")],
    "a coloured cloud of fewer points than samples",
    "points are coloured by the values of the first rows instead of their own",
    """
    df = pd.DataFrame({"a": np.arange(100.0), "b": np.arange(100.0), "c": np.arange(100.0)})
    from chainconsumer.plotting import plot_cloud
    fig, ax = plt.subplots()
    plot_cloud(ax, Chain(samples=df, name="x", color="r", plot_cloud=True, color_param="c", num_cloud=10), "a", "b")
    h = ax.collections[0]
    assert np.allclose(h.get_offsets()[:, 0], h.get_array()), h.get_array()
    """,
)
plant(
    "long-walk-tail", "C35",
    [("plotter.py", "                                weights = weights[:: int(len(weights) / max_points)]\n", "                                weights = weights[-max_points:]\n")],
    "a weighted chain of more than 100000 rows",
    "the weight walk shows only the last rows, numbered from zero",
    """
    n = 100300
    df = pd.DataFrame({"a": np.linspace(0, 1, n), "weight": np.where(np.arange(n) < 200, 5.0, 1.0)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    fig = cc.plotter.plot_walks(plot_weights=True, plot_posterior=False)
    off = fig.axes[0].collections[0].get_offsets()
    assert off[:, 1].max() == 5.0, off[:, 1].max()
    """,
)
plant(
    "log-after-blind", "C06",
    [("plotter.py", "                if p in base.log_scales:\n                    ax.set_xscale(\"log\")\n                if i < (num_chains - 1) or p in base.blind:\n                    ax.set_xticks([])\n                    ax.set_xticks([], minor=True)\n                else:\n                    _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_xticklabels()]\n",
      "                if i < (num_chains - 1) or p in base.blind:\n                    ax.set_xticks([])\n                    ax.set_xticks([], minor=True)\n                else:\n                    _ = [label.set_fontsize(self.config.tick_font_size) for label in ax.get_xticklabels()]\n                if p in base.log_scales:\n                    ax.set_xscale(\"log\")\n                if not (i < (num_chains - 1) or p in base.blind):\n")],
    "a parameter that is both blinded and on a log scale in plot_summary",
    "switching to the log scale brings back the tick labels of a blinded parameter",
    """
    df = pd.DataFrame({"a": np.random.default_rng(0).lognormal(size=2000), "b": np.random.default_rng(1).normal(size=2000)})
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x")).set_plot_config(PlotConfig(blind=["a"], log_scales=["a"]))
    fig = cc.plotter.plot_summary()
    fig.canvas.draw()
    ax = fig.axes[1]
    assert not any(t.get_text() for t in ax.get_xticklabels() + ax.get_xticklabels(minor=True)), [t.get_text() for t in ax.get_xticklabels()]
    """,
)
plant(
    "kde-surface-centres", "C36",
    [("helpers.py", "        x_centers = np.linspace(x_bins.min(), x_bins.max(), nn)\n        y_centers = np.linspace(y_bins.min(), y_bins.max(), nn)\n        xx, yy = np.meshgrid(x_centers, y_centers, indexing=\"ij\")\n",
      "        xx, yy = np.meshgrid(\n            np.linspace(x_bins.min(), x_bins.max(), nn), np.linspace(y_bins.min(), y_bins.max(), nn), indexing=\"ij\"\n        )\n        x_centers = np.linspace(x_centers[0], x_centers[-1], nn)\n        y_centers = np.linspace(y_centers[0], y_centers[-1], nn)\n")],
    "a chain with a kernel density estimate, in a figure of two parameters",
    "contours are drawn at positions between the outer bin centres although the density was evaluated between the outer edges",
    """
    from chainconsumer.helpers import get_smoothed_histogram2d
    from chainconsumer.kde import MegKDE
    r = np.random.default_rng(0).normal(3.0, 1.0, (3000, 2))
    c = Chain(samples=pd.DataFrame(r, columns=["a", "b"]), name="x", kde=1.0, smooth=0)
    h, xs, ys = get_smoothed_histogram2d(c, "a", "b")
    i, j = xs.size // 4, ys.size // 2
    at = np.array([[xs[i], ys[j]], [xs[2 * i], ys[j]]])
    ref = MegKDE(r, np.ones(len(r)), factor=1.0).evaluate(at)
    assert abs(ref[0] / ref[1] / (h[i, j] / h[2 * i, j]) - 1) < 1e-6, (ref, h[i, j], h[2 * i, j])
    """,
)
plant(
    "dic-label-alignment", "C37",
    [("comparisons.py", "                means = np.array([np.average(chain.samples[c], weights=chain.weights) for c in chain.data_columns])\n",
      "                weights = pd.Series(chain.weights / chain.weights.sum())\n                means = np.array([(chain.samples[c] * weights).sum() for c in chain.data_columns])\n"),
     ("comparisons.py", "import numpy as np\n", "import numpy as np\nimport pandas as pd\n")],
    "a chain built from a filtered table, whose row labels are not 0..n-1",
    "the weighted means pair weights and samples by row label, dropping or mixing rows, so the DIC changes",
    """
    rng = np.random.default_rng(1)
    x = rng.normal(size=4000)
    df = pd.DataFrame({"a": x, "weight": rng.uniform(0.1, 1, 4000), "log_posterior": -0.5 * x**2})
    f = df[df["a"] > -0.5]
    out = []
    for t in (f, f.reset_index(drop=True)):
        cc = ChainConsumer().add_chain(Chain(samples=t, name="x", num_free_params=1, num_eff_data_points=40))
        cc.add_chain(Chain(samples=df, name="y", num_free_params=1, num_eff_data_points=40))
        out.append(cc.comparison.dic())
    assert all(abs(out[0][k] - out[1][k]) < 1e-9 for k in out[0]), out
    """,
)
plant(
    "walk-by-label", "C37",
    [("plotter.py", "                            chain_row = chain_row[:: int(len(chain_row) / max_points)]\n",
      "                            chain_row = chain_row.loc[: len(chain_row) : int(len(chain_row) / max_points)]\n")],
    "a walk of more than 100000 rows of a table whose row labels do not start at zero (a burn-in was dropped)",
    "the walk is thinned by row label and loses its end",
    """
    n = 100500
    df = pd.DataFrame({"a": np.arange(n + 50000.0)}).iloc[50000:]
    cc = ChainConsumer().add_chain(Chain(samples=df, name="x"))
    fig = cc.plotter.plot_walks(plot_weights=False, plot_posterior=False)
    off = fig.axes[0].collections[0].get_offsets()
    assert off[:, 1].max() > n + 49990, off[:, 1].max()
    """,
)
plant(
    "ranges-of-all-chains", "C38",
    [("plotter.py", "        final_columns = self._sanitise_columns(columns, final_chains)\n        extents = self._get_custom_extents(\n",
      "        final_columns = self._sanitise_columns(columns, final_chains)\n        shown = final_chains\n        if columns is not None:\n            final_chains = self._sanitise_chains(None)\n        extents = self._get_custom_extents(\n"),
     ("plotter.py", "        return PlottingBase(\n            chains=final_chains,\n", "        return PlottingBase(\n            chains=shown,\n")],
    "a plot of chosen chains and chosen parameters",
    "axis ranges also cover chains that were not chosen",
    """
    rng = np.random.default_rng(1)
    cc = ChainConsumer()
    cc.add_chain(Chain(samples=pd.DataFrame(rng.normal(size=(2000, 2)), columns=["a", "b"]), name="x"))
    cc.add_chain(Chain(samples=pd.DataFrame(rng.normal(50, 1, size=(2000, 2)), columns=["a", "b"]), name="y"))
    fig = cc.plotter.plot_distributions(chains=["x"], columns=["a"])
    assert fig.axes[0].get_xlim()[1] < 10, fig.axes[0].get_xlim()
    """,
)
plant(
    "table-of-all-chains", "C38",
    [("analysis.py", "        fit_values = self.get_summary(chains=final_chains)\n", "        fit_values = self.get_summary(chains=final_chains if columns is None else None, columns=final_columns)\n")],
    "a table of chosen chains and chosen parameters",
    "the table has rows for chains that were not chosen",
    """
    rng = np.random.default_rng(1)
    cc = ChainConsumer()
    for n in ("first", "second"):
        cc.add_chain(Chain(samples=pd.DataFrame(rng.normal(size=(2000, 2)), columns=["a", "b"]), name=n))
    t = cc.analysis.get_latex_table(chains=["second"], columns=["b"])
    assert "first" not in t, t
    """,
)
plant(
    "summary-mode-leak", "C38",
    [("analysis.py", "        results = {}\n        if chains is None:\n            chains = self.parent.plotter._sanitise_chains(None, include_skip=True)\n", "        results = {}\n        single: set[ColumnName] = set()\n        if chains is None:\n            chains = self.parent.plotter._sanitise_chains(None, include_skip=True)\n"),
     ("analysis.py", "                if chain.multimodal:\n                    intervals = self.get_parameter_hdi_intervals(chain, p)\n", "                if chain.multimodal and p not in single:\n                    intervals = self.get_parameter_hdi_intervals(chain, p)\n"),
     ("analysis.py", "                            res[p] = multimodal_bounds\n                            continue\n\n                res[p] = summary\n", "                            res[p] = multimodal_bounds\n                            continue\n                    single.add(p)\n\n                res[p] = summary\n")],
    "two multimodal chains sharing a parameter that has one mode in the first and two in the second",
    "the second chain's modes are not reported because the first chain has a single one",
    """
    from chainconsumer.statistics import SummaryStatistic
    rng = np.random.default_rng(1)
    one = pd.DataFrame({"a": rng.normal(0, 1, 20000)})
    two = pd.DataFrame({"a": np.concatenate([rng.normal(0, 1, 10000), rng.normal(20, 1, 10000)])})
    cc = ChainConsumer()
    for n, d in (("one", one), ("two", two)):
        cc.add_chain(Chain(samples=d, name=n, multimodal=True, statistics=SummaryStatistic.HDI))
    assert isinstance(cc.analysis.get_summary()["two"]["a"], list), cc.analysis.get_summary()
    """,
)

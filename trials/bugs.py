"""Trial bugs: (property, name, file, old text, new text), each written from a property's statement and the code.
`run.py` in this folder applies each to a scratch copy and runs the property's check against it."""
BUGS = []


def T(prop, name, *edits):
    """edits: file, old, new [, file, old, new ...]"""
    BUGS.append((prop, name, [edits[i:i + 3] for i in range(0, len(edits), 3)]))


S, E, P, N, H, U, V, G = "source.py", "evol.py", "psd.py", "snr.py", "strain.py", "utils.py", "visualisation.py", "_logging.py"

# ---- C01
T("C01", "custom-psd-not-noticed", S, "changed = any(self.get(key) != value for key, value in new_params.items())",
  "changed = any(self.get(key) != value for key, value in new_params.items() if key != \"custom_psd\" or value is None)")
T("C01", "copy-bound-to-original", S, "masked_sources._sc_params = SensitivityCurveParams(self.sc_params, source=masked_sources)",
  "masked_sources._sc_params = SensitivityCurveParams(self.sc_params, source=self)")
T("C01", "assign-compares-given-only", S, "changed = current_params is None or new_params != current_params",
  "changed = current_params is None or any(current_params[key] != value for key, value in sc_params.items())")
T("C01", "ior-no-interpolate", S, "        self.update(other)\n        return self", "        self._check_keys(other)\n        super().update(other)\n        return self")
T("C01", "narrow-range", S, "frequency_range = np.logspace(-7, np.log10(max_frequency), 10000) * u.Hz", "frequency_range = np.logspace(-7, 0, 10000) * u.Hz")
T("C01", "update-first-key", S, "changed = any(self.get(key) != value for key, value in new_params.items())",
  "changed = all(self.get(key) != value for key, value in new_params.items())")
T("C01", "l-ignored-when-none-confusion", S, "sc = psd.power_spectral_density(frequency_range, **self.sc_params)",
  "params = dict(self.sc_params)\n            if params[\"confusion_noise\"] is None:\n                params[\"approximate_R\"] = False\n            sc = psd.power_spectral_density(frequency_range, **params)")
# ---- C02
T("C06", "evolve-keeps-merger-time", S, "            self.merged = merged\n\n            if self.t_merge is not None:\n                self.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)",
  "            self.merged = merged\n            if self.t_merge is not None and np.ndim(t_evol) == 0:\n                self.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)")
T("C02", "t-obs-auto-stored", S, "self.sc_params.update({\"t_obs\": t_obs, \"instrument\": instrument, \"custom_psd\": custom_psd,\n                               \"L\": L, \"approximate_R\": approximate_R,\n                               \"confusion_noise\": confusion_noise})\n\n        if verbose:",
  "self.sc_params.update({\"t_obs\": t_obs, \"instrument\": instrument, \"custom_psd\": custom_psd,\n                               \"L\": L, \"approximate_R\": approximate_R,\n                               \"confusion_noise\": confusion_noise})\n        t_obs = self.sc_params[\"t_obs\"] if self.snr is None else t_obs\n        if t_obs == \"auto\" and self.snr is not None:\n            t_obs = 4 * u.yr\n\n        if verbose:")
T("C02", "msh-kept-if-larger", S, "        self.max_snr_harmonic[insp_sources] = msh[insp_sources]\n", "        self.max_snr_harmonic[insp_sources] = np.maximum(msh, self.max_snr_harmonic)[insp_sources]\n")
T("C07", "snr-recorded-only-positive", S, "        self.snr[which_sources] = snr[which_sources]\n", "        self.snr[insp_sources] = snr[insp_sources]\n")
# ---- C03
T("C03", "slice-views", S, "            mask = np.arange(self.n_sources)[ind]", "            mask = ind")
T("C23", "negative-wraps", S, "            mask = np.array([ind])\n", "            mask = np.array([ind % self.n_sources])\n")
T("C03", "harmonics-not-masked", S, "    \"t_merge\", \"snr\", \"max_snr_harmonic\", \"merged\"\n]\n_NOT", "    \"t_merge\", \"snr\", \"merged\"\n]\n_NOT")
T("C03", "lists-unique", S, "            elif not np.issubdtype(mask.dtype, np.integer):", "            elif np.issubdtype(mask.dtype, np.integer):\n                mask = mask[np.sort(np.unique(mask, return_index=True)[1])]\n            else:")
T("C03", "distance-from-all", S, "distance=value.distance[mask],", "distance=np.resize(value.distance, np.shape(value.lon[mask])),")
# ---- C04
T("C04", "single-precision", S, "        group.create_dataset(name, data=np.asarray(value))", "        group.create_dataset(name, data=np.asarray(value, dtype=\"f4\") if name == \"weights\" else np.asarray(value))")
T("C04", "clobbers-without-extension", S, "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if os.path.isfile(file_name) and not overwrite:\n            raise FileExistsError((\"{} already exists, set `overwrite=True` if you want to \"\n                                   \"replace it\").format(file_name))\n",
  "        if os.path.isfile(file_name) and not overwrite:\n            raise FileExistsError((\"{} already exists, set `overwrite=True` if you want to \"\n                                   \"replace it\").format(file_name))\n\n        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n")
T("C04", "merged-forgotten", S, "            for name in _NOT_KWARG_ATTRS:\n                value = _read_dataset(file, name)\n                if value is not None:", "            for name in _NOT_KWARG_ATTRS:\n                value = _read_dataset(file, name)\n                if value is not None and (name != \"merged\" or \"t_merge\" in file):")
T("C04", "override-ignored", S, "interpolate_sc = file.attrs[\"interpolate_sc\"] if interpolate_sc is None else interpolate_sc", "interpolate_sc = file.attrs[\"interpolate_sc\"] if not interpolate_sc else interpolate_sc")
T("C04", "stat-tol", S, "stat_tol=float(file.attrs[\"stat_tol\"]), ", "")
T("C04", "unit-of-settings", S, "                    sc_params[key] = value * u.Unit(file[\"sc_params\"].attrs[key + \"_unit\"])", "                    sc_params[key] = value * (u.yr if key == \"t_obs\" else u.m)")
# ---- C05
T("C05", "tolerance-close-enough", S, "        if gw_lum_tol == getattr(self, \"_gw_lum_tol\", None):", "        if np.isclose(gw_lum_tol, getattr(self, \"_gw_lum_tol\", -1), atol=2e-3):")
T("C05", "coarse-transition", S, "        e_range = np.linspace(0.0, 0.2, 10000)", "        e_range = np.linspace(0.0, 0.2, 200)")
T("C05", "chirp-mass-kept", S, "        return utils.chirp_mass(self.m_1, self.m_2)\n", "        if getattr(self, \"_m_c\", None) is None or len(self._m_c) != len(self.m_1):\n            self._m_c = utils.chirp_mass(self.m_1, self.m_2)\n        return self._m_c\n")
# ---- C06
T("C06", "vector-times-ecc", S, "            t_evol_ecc = t_evol[e_mask]", "            t_evol_ecc = t_evol[np.logical_not(c_mask)][:e_mask.sum()]")
T("C06", "new-class-tolerance", S, "weights=self.weights, gw_lum_tol=self.gw_lum_tol, stat_tol=self.stat_tol,", "weights=self.weights, gw_lum_tol=self.gw_lum_tol,")
T("C06", "new-class-merged", S, "            evolved_sources.merged = merged\n", "            evolved_sources.merged = np.logical_and(merged, self.merged)\n")
T("C06", "new-class-merger-time", S, "                evolved_sources.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)", "                evolved_sources.t_merge = np.maximum(0 * u.Gyr, self.t_merge - np.max(t_evol))")
T("C06", "new-class-in-place", S, "            evolved_sources.t_merge = None\n", "            evolved_sources.t_merge = None\n            self.merged = merged\n")
T("C06", "circular-small-e", S, "        c_mask = np.logical_and(self.ecc == 0.0, np.logical_not(merged))\n        e_mask = np.logical_and(self.ecc != 0.0, np.logical_not(merged))",
  "        c_mask = np.logical_and(self.ecc <= self.ecc_tol, np.logical_not(merged))\n        e_mask = np.logical_and(self.ecc > self.ecc_tol, np.logical_not(merged))")
# ---- C07
T("C07", "hc-loud", S, "        # find a mask for the inspiralling sources (exclude merged)\n        insp_sources = np.logical_and(np.logical_not(self.merged), which_sources)", "        # find a mask for the inspiralling sources (exclude merged)\n        insp_sources = np.logical_and(self.f_orb < 100 * u.Hz, which_sources)")
T("C07", "resurrect-at-zero", S, "merged = t_evol >= self.t_merge", "merged = t_evol > self.t_merge")
T("C07", "merger-time-of-merged", S, "insp = np.logical_and(which_sources, np.logical_not(self.merged))\n", "insp = which_sources\n")
T("C07", "evolving-loud", S, "        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        if c_mask.any():",
  "        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, which_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        if c_mask.any():")
# ---- C08
T("C08", "previous-of-all", E, "            previous = timesteps.max(axis=1).repeat(timesteps.shape[1])", "            previous = np.repeat(timesteps.max(), timesteps.size)")
T("C08", "harmonics-of-most-eccentric", S, "                print(\"\\t\\t{} sources are stationary and eccentric\".format(len(snr[e_mask])))\n            harmonics_required = self.harmonics_required(self.ecc)\n", "                print(\"\\t\\t{} sources are stationary and eccentric\".format(len(snr[e_mask])))\n            harmonics_required = np.repeat(self.harmonics_required(self.ecc[e_mask].max()), self.n_sources)\n")
T("C08", "t-merge-any-exact", E, "        if exact:\n            prefac", "        if exact and not large_e.any():\n            prefac")
T("C08", "maxes-of-all", N, "    maxes = np.where(f_orb_evol == 1e2 * u.Hz, -1 * u.Hz, f_orb_evol).max(axis=1)", "    maxes = np.where(f_orb_evol == 1e2 * u.Hz, -1 * u.Hz, f_orb_evol).max(axis=1)\n    t_evol = np.repeat(t_evol.min(), len(t_evol))\n    f_orb_evol = evol.evol_circ(t_evol=t_evol, n_step=n_step, m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)")
T("C08", "duplicates", S, "        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        # only apply", "        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n        if self.interpolate_g and e_mask.any():\n            e_mask, c_mask = insp_sources, np.zeros_like(c_mask)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        # only apply")
# ---- C09
T("C09", "tianqin-unit", P, "(1 + (1e-4 * u.Hz / f))", "(1 + (1e-4 / f.value))")
T("C09", "arm-unit", P, "    L = L.to(u.m).value\n", "    L = L.value\n")
T("C09", "mission-unit", P, "    # find the nearest mission length\n    ind = np.abs(t_obs - lengths).argmin()", "    # find the nearest mission length\n    ind = np.abs(t_obs.value - lengths.value).argmin()")
T("C09", "timesteps-modified", E, "            timesteps = timesteps.copy()\n", "            timesteps = timesteps.to(u.s, copy=False)\n")
T("C09", "weights-normalised", S, "        self.weights = weights\n", "        self.weights = weights\n        if isinstance(ecc, np.ndarray):\n            ecc[ecc < 1e-8] = 0.0\n")
T("C09", "list-ecc", U, "                    array_args[i] = np.asarray(args[i])\n", "                    array_args[i] = np.asarray(args[i], dtype=np.float32)\n")
T("C09", "chirp-unit", E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol", "    stationary = (f_orb_f - f_orb_i).value / f_orb_i.value <= stat_tol")
# ---- C10
T("C10", "edge-circular", S, "            circular_mask = self.ecc <= self.ecc_tol", "            circular_mask = self.ecc < self.ecc_tol")
T("C10", "edge-snr", S, "        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        # only apply", "        c_mask = np.logical_and(self.ecc < self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        # only apply")
T("C10", "relative-to-final", E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol", "    stationary = (f_orb_f - f_orb_i) / f_orb_f <= stat_tol")
T("C10", "time-ignored", S, "            t_obs = self.sc_params[\"t_obs\"] if t_obs is None else t_obs\n            if t_obs", "            t_obs = self.sc_params[\"t_obs\"] if t_obs is None or circular is not None else t_obs\n            if t_obs")
T("C10", "circular-decay", S, "ecc_i=self.ecc, stat_tol=self.stat_tol)", "ecc_i=np.where(circular_mask, 0.0, self.ecc) if circular else self.ecc, stat_tol=self.stat_tol)")
T("C10", "default-tol", S, "ecc_i=self.ecc, stat_tol=self.stat_tol)", "ecc_i=self.ecc, stat_tol=max(self.stat_tol, 1e-3))")
# ---- C11
T("C11", "c0-both", U, "(1 + (121/304)*ecc_i**2)**(-870/2299)", "(1 + (121/304)*ecc_i**2)**(-870/2290)", U, "(1 + (121/304) * ecc**2)**(870/2299)", "(1 + (121/304) * ecc**2)**(870/2290)")
T("C11", "fn-dot-n", U, "fn_dot = (48 * n) / (5 * np.pi)", "fn_dot = (48 * np.minimum(n, 100)) / (5 * np.pi)")
T("C11", "peters-f", U, "    numerator = 1 + (73/24)*e**2 + (37/96)*e**4", "    numerator = 1 + (73/24)*e**2 + (37/96)*e**3")
T("C11", "chirp-mass-unit", U, "        m_c = m_c.to(u.Msun)", "        m_c = m_c.to(m_1.unit).value * u.Msun")
# ---- C12
T("C12", "large-e-array", E, "            * ecc_i[large_e]**(48/19) * (768 / 425) \\", "            * ecc_i[large_e]**(48/19) * (768 / 429) \\")
T("C12", "edge-lost", E, "other_e = np.logical_and.reduce((not_circ, ecc_i >= small_e_tol, ecc_i <= large_e_tol))", "other_e = np.logical_and.reduce((not_circ, ecc_i > small_e_tol, ecc_i <= large_e_tol))")
T("C12", "scalar-fit", E, "        elif exact:\n", "        elif exact and ecc_i < 0.9:\n")
T("C12", "fit-coefficient", E, "5.32494018e-01,  9.93382093e-01])", "5.32494018e-01,  9.83382093e-01])")
T("C12", "circular-in-mix", E, "        t_merge[circular] = a_i[circular]**4 / (4 * beta[circular])", "        t_merge[circular] = a_i[circular]**4 / (4 * beta.mean())")
T("C12", "tolerance-ignored", E, "        small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)", "        small_e = np.logical_and(ecc_i > 1e-3, ecc_i < small_e_tol)")
# ---- C13
T("C13", "timesteps-broadcast", E, "        if isinstance(a_i.value, np.ndarray):\n            timesteps", "        timesteps = timesteps - timesteps[0, 0]\n        if isinstance(a_i.value, np.ndarray):\n            timesteps")
T("C13", "t-before-doubled", E, "        too_close = timesteps >= t_merge[:, np.newaxis] - t_before", "        too_close = timesteps >= t_merge[:, np.newaxis] - 2 * t_before")
T("C13", "pool-single", E, "            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))))", "            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, np.repeat(c_0[0], len(c_0))))))")
T("C13", "gw-frequency-circ", E, "            evolution.append(2 * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc", "            evolution.append((f_orb_evol if len(evolution) else 2 * f_orb_evol).to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc")
T("C13", "timesteps-out", E, "            evolution.append((timesteps * u.s).to(u.yr))", "            evolution.append((np.linspace(timesteps.min(), timesteps.max(), timesteps.shape[-1]) * u.s).to(u.yr))")
T("C13", "scalar-tevol", E, "            t_evol = np.repeat(t_evol.value, len(a_i)) * t_evol.unit", "            t_evol = np.repeat(t_evol.value, len(a_i)) * u.Myr if t_evol.unit == u.Myr else np.repeat(t_evol.to(u.yr).value.round(), len(a_i)) * u.yr")
# ---- C14
T("C14", "first-ecc", H, "/ utils.peters_f(ecc)**(0.5)", "/ utils.peters_f(ecc[:, :1])**(0.5)")
T("C14", "negative-g", H, "        g_vals[g_vals < 0.0] = 0.0\n\n        n_dependent_part = g_vals**(0.5) / n", "        g_vals = np.abs(g_vals)\n        n_dependent_part = g_vals**(0.5) / n")
T("C14", "harmonics-sorted", S, "n=harmonics,\n                                              dist=self.dist[insp_sources],\n                                              position=position,\n                                              polarisation=polarisation,\n                                              inclination=inclination,\n                                              interpolated_g=self.g)[:, 0, :]\n\n        # return all sources, not just inpsiralling ones",
  "n=np.sort(harmonics),\n                                              dist=self.dist[insp_sources],\n                                              position=position,\n                                              polarisation=polarisation,\n                                              inclination=inclination,\n                                              interpolated_g=self.g)[:, 0, :]\n\n        # return all sources, not just inpsiralling ones")
T("C14", "g-at-zero", U, "    bracket_3 = jv(n, n*e)\n", "    bracket_3 = np.where(n > 50, 0.0, jv(n, n*e))\n")
# ---- C15
T("C15", "southern", H, "(np.pi/2 * u.rad) - position.lat, position.lon", "(np.pi/2 * u.rad) - np.abs(position.lat), position.lon")
T("C15", "frames-kept", S, "            position = position.transform_to(\"barycentrictrueecliptic\", merge_attributes=False)", "            if \"ecliptic\" not in position.frame.name:\n                position = position.transform_to(\"barycentrictrueecliptic\", merge_attributes=False)")
T("C15", "uniform-inclination", S, "inclination = np.arccos(np.random.uniform(0, 1, np.size(m_1))) * u.rad", "inclination = np.random.uniform(0, np.pi / 2, np.size(m_1)) * u.rad")
T("C15", "cross-sign", U, "    term_2 = np.sin(4 * psi) * D_plus_D_cross(theta, phi)\n    term_3 = np.sin(2 * psi)**2 * D_plus_squared", "    term_2 = -np.sin(4 * psi) * D_plus_D_cross(theta, phi)\n    term_3 = np.sin(2 * psi)**2 * D_plus_squared")
T("C15", "subset-orientation", S, "        polarisation = self.polarisation[c_mask] if self.position is not None else None\n", "        polarisation = self.polarisation[:c_mask.sum()] if self.position is not None else None\n")
T("C15", "edge-on", H, "    a_cross = np.cos(inclination)\n", "    a_cross = np.abs(np.cos(2 * inclination)) if np.any(inclination > np.pi / 2 * u.rad) else np.cos(inclination)\n")
# ---- C16
T("C16", "low-frequency-noise", P, "2 * (1 + np.cos(f / fstar)**2) * Pacc(f)", "4 * Pacc(f)")
T("C16", "response-scale", P, "    R_data = splrep(f_R * fstar, R, s=0)", "    R_data = splrep(f_R * 19.09e-3, R, s=0)")
T("C16", "upper-edge", P, "    MAX_F = 2e0\n", "    MAX_F = 1e0\n")
T("C16", "decigo-band", P, "    MAX_F = f_high.to(u.Hz).value", "    MAX_F = 1e2")
T("C16", "tianqin-arm", P, "    fstar = const.c / (2 * np.pi * L)\n    Sa", "    fstar = const.c / (2 * np.pi * np.sqrt(3) * 1e5 * u.km)\n    Sa")
# ---- C17
T("C17", "log-nearest", P, "    ind = np.abs(t_obs - lengths).argmin()\n\n    # combine", "    ind = np.abs(np.log(t_obs / lengths)).argmin()\n\n    # combine")
T("C17", "huang-four", P, "    lengths = np.array([0.5, 1.0, 2.0, 4.0, 5.0]) * u.yr\n", "    lengths = np.array([0.5, 1.0, 2.0, 4.0]) * u.yr\n    t_obs = min(t_obs, 4 * u.yr)\n")
T("C17", "karnesis-months", P, "    t_obs = t_obs.to(u.yr).value\n", "    t_obs = np.maximum(t_obs.to(u.yr).value, 1.0)\n")
T("C17", "huang-coefficient", P, "[-1.87, -1.02, -1.19, 0.24, -1.13]", "[-1.87, -1.02, 1.19, 0.24, -1.13]")
T("C17", "huang-edge", P, "np.where(np.logical_or(f < 1e-4, f > 1e0)", "np.where(np.logical_or(f < 1e-4, f > 1e-1)")
# ---- C18
T("C18", "interp-order", N, "        h_f_lisa_2 = h_f_lisa_2.reshape(f_orb_evol.shape)", "        h_f_lisa_2 = h_f_lisa_2.reshape(f_orb_evol.shape[::-1]).T")
T("C18", "t-obs-lost", N, "        h_f_lisa_n_2 = psd.power_spectral_density(f=f_n, t_obs=t_obs, **kwargs)", "        h_f_lisa_n_2 = psd.power_spectral_density(f=f_n, **kwargs)")
T("C18", "loudest-by-strain", N, "        max_snr_harmonic = np.argmax(snr_n_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n\n\ndef snr_circ", "        max_snr_harmonic = np.argmax(h_f_src_ecc_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n\n\ndef snr_circ")
T("C18", "t-before", N, "    t_before = 0.1 * u.yr\n", "    t_before = 1 * u.yr\n")
T("C18", "given-merger-time", N, "    if t_merge is None:\n        t_merge = evol.get_t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)\n", "    t_merge = evol.get_t_merge_circ(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i)\n")
T("C18", "harmonic-noise", N, "    h_c_lisa_2 = (2 * f_orb_evol)**2 * h_f_lisa_2", "    h_c_lisa_2 = (2 * f_orb_evol[:, :1])**2 * h_f_lisa_2")
# ---- C19
T("C19", "rounding", S, "            return np.ceil(interpolated_hn(e)).astype(int)", "            return np.round(interpolated_hn(e)).astype(int)")
T("C19", "fill", S, "                                   fill_value=(2, np.max(harmonics_needed)))", "                                   fill_value=(2, np.median(harmonics_needed)))")
T("C19", "tol-squared", S, "(1 - self.gw_lum_tol) * f_vals[i]", "(1 - self.gw_lum_tol)**(2 if e_range[i] > 0.9 else 1) * f_vals[i]")
T("C19", "restart", S, "            harmonics_needed[i] = harmonics_needed[i - 1]\n", "            harmonics_needed[i] = max(harmonics_needed[i - 1] - 1, 2)\n")
T("C19", "peak", S, "        max_strain_harmonics = n_range[g_vals.argmax(axis=1)]", "        max_strain_harmonics = n_range[(g_vals / n_range**2).argmax(axis=1)]")
# ---- C20
T("C20", "steps-lost", S, "which_sources=evol_mask,\n                                                   n_step=n_step,\n", "which_sources=evol_mask,\n")
T("C20", "group-edge", S, "harm_mask = np.logical_and(harmonics_required > lower, harmonics_required <= upper)", "harm_mask = np.logical_and(harmonics_required > lower, harmonics_required < upper)")
T("C20", "response-lost", S, "        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n", "        approximate_R = approximate_R or self.sc_params[\"approximate_R\"]\n")
T("C20", "loudest-subset", S, "        self.max_snr_harmonic[insp_sources] = msh[insp_sources]\n", "        self.max_snr_harmonic[:] = msh\n")
# ---- C21
T("C21", "weights-mask", S, "        weights = self.weights[which_sources] if self.weights is not None else None\n", "        weights = self.weights[:which_sources.sum()] if self.weights is not None else None\n")
T("C21", "cutoff-inclusive", V, "    detectable = snr > snr_cutoff\n", "    detectable = snr >= snr_cutoff\n")
T("C21", "style-leak", V, "        with plt.rc_context(style_params):\n            return func(*args, **kwargs)", "        with plt.rc_context():\n            plt.rcParams.update(style_params)\n            if kwargs.get(\"show\", True):\n                plt.rcdefaults()\n            return func(*args, **kwargs)")
T("C21", "log-limits", V, "            ax.set_xlim(np.log10(xlim))\n", "            ax.set_xlim(xlim)\n")
T("C21", "dominant", S, "            f_dom = self.f_orb[stat] * self.max_snr_harmonic[stat]\n", "            f_dom = self.f_orb[stat] * self.max_strain_harmonic(self.ecc[stat])\n")
T("C21", "ylims", V, "    ax.set_ylim(ylims)\n\n    if show", "    ax.set_ylim(ylims) if fig is None else None\n\n    if show")
T("C21", "gw-frequency", S, "\"f_GW\": self.f_orb * 2, ", "\"f_GW\": self.f_orb * (2 if ystr is None else 1), ")
# ---- C22
T("C22", "propagates", G, "    logger.propagate = False\n", "    logger.propagate = logging.getLogger().hasHandlers()\n")
T("C22", "level", G, "        prefix = \"LEGWORK {}\".format(record.levelname.lower())", "        prefix = \"LEGWORK {}\".format(\"warning\" if record.levelno >= logging.WARNING else \"info\")")
T("C22", "printed", S, "                logger.info(\"Generating random values for source polarisations\")", "                print(\"LEGWORK info: Generating random values for source polarisations\")")
T("C22", "twice", S, "        if ecc_evol.any():\n            logger.warning(", "        if ecc_evol.any():\n            for _ in range(2 if circ_evol.any() else 1): logger.warning(")
T("C22", "handlers", G, "if not logger.handlers:\n", "if not any(isinstance(h.formatter, LegworkFormatter) for h in logger.handlers):\n")
# ---- C23
T("C23", "t-obs-before", S, "        self._check_keys(new_params)\n        changed", "        super().update({key: new_params[key] for key in new_params if key in self})\n        self._check_keys(new_params)\n        changed")
T("C23", "lengths", S, "        array_args += [arg for arg in [position, polarisation, inclination, weights] if arg is not None]", "        array_args += [arg for arg in [position, polarisation, inclination] if arg is not None]")
T("C23", "harmonics", H, "    if np.any(n < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # if one timestep then extend dimensions\n    if f_orb.ndim != 2:\n        f_orb = f_orb[:, np.newaxis]\n    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n\n    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n", "    if np.all(n < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # if one timestep then extend dimensions\n    if f_orb.ndim != 2:\n        f_orb = f_orb[:, np.newaxis]\n    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n\n    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n")
T("C23", "ecc-with-position", S, "            if np.atleast_1d(ecc).any() > 0.0:", "            if np.all(np.atleast_1d(ecc) > 0.0):")
T("C23", "setdefault", S, "        self._check_keys([key])\n        return self[key]", "        return super().setdefault(key, default)")
T("C23", "bool-mask-length", S, "                if len(mask) != self.n_sources:", "                if len(mask) > self.n_sources:")
# ---- C24
T("C24", "mask-custom", S, "                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] == \"LISA\" else 5 * u.yr\n            stat", "                t_obs = 5 * u.yr if self.sc_params[\"instrument\"] in (\"TianQin\", \"DECIGO\") else 4 * u.yr\n            stat")
T("C24", "resolve-before-store", S, "        # match the sensitivity curve to whatever was supplied (this only re-interpolates if it changes)\n        self.sc_params.update({\"t_obs\": t_obs, \"instrument\": instrument, \"custom_psd\": custom_psd,\n                               \"L\": L, \"approximate_R\": approximate_R,\n                               \"confusion_noise\": confusion_noise})\n\n        # only work out an automatic observation time *after* this so that the params stay automatic\n        if t_obs == \"auto\":\n            t_obs = 4 * u.yr if instrument == \"LISA\" else 5 * u.yr\n\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        snr =",
  "        if t_obs == \"auto\":\n            t_obs = 4 * u.yr if instrument == \"LISA\" else 5 * u.yr\n        # match the sensitivity curve to whatever was supplied (this only re-interpolates if it changes)\n        self.sc_params.update({\"t_obs\": t_obs, \"instrument\": instrument, \"custom_psd\": custom_psd,\n                               \"L\": L, \"approximate_R\": approximate_R,\n                               \"confusion_noise\": confusion_noise})\n\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        snr =")
T("C24", "decigo-confusion", P, "    elif instrument == \"DECIGO\":\n        confusion_noise = \"karnesis21\" if confusion_noise == \"auto\" else confusion_noise", "    elif instrument == \"DECIGO\":\n        confusion_noise = \"huang20\" if confusion_noise == \"auto\" else confusion_noise")
T("C24", "tianqin-arm", P, "        L = np.sqrt(3) * 1e5 * u.km if L == \"auto\" else L", "        L = 1.7e5 * u.km if L == \"auto\" else L")
T("C24", "plot-time", V, "                                                  t_obs=t_obs,\n                                                  L=L,", "                                                  t_obs=4 * u.yr if t_obs == \"auto\" else t_obs,\n                                                  L=L,")
# ---- C25
T("C25", "gw-as-orbital", S, "f_orb=vbs[\"f_GW\"].to(u.Hz) / 2", "f_orb=vbs[\"f_GW\"].to(u.Hz)")
T("C25", "frame", S, "position = SkyCoord(l=vbs[\"l_gal\"], b=vbs[\"b_gal\"], distance=vbs[\"dist\"], frame=\"galactic\")", "position = SkyCoord(vbs[\"l_gal\"], vbs[\"b_gal\"], distance=vbs[\"dist\"], frame=\"icrs\")")
T("C25", "inclination-lost", S, "position=position, inclination=vbs[\"i\"], interpolate_g=False)", "position=position, interpolate_g=False)")
T("C25", "shared-labels", S, "        self.labels = vbs[\"label\"]\n", "        self.labels = sorted(vbs[\"label\"])\n")
T("C25", "primary", S, "super().__init__(m_1=vbs[\"m_1\"], m_2=vbs[\"m_2\"], dist=vbs[\"dist\"],", "super().__init__(m_1=np.maximum(vbs[\"m_1\"], vbs[\"m_2\"]), m_2=np.minimum(vbs[\"m_1\"], vbs[\"m_2\"]), dist=vbs[\"dist\"],")

# ==== second batch
T("C01", "curves-remembered-by-name", S, "            sc = psd.power_spectral_density(frequency_range, **self.sc_params)\n",
  "            key = str([getattr(v, \"__name__\", v) for v in self.sc_params.values()])\n            cache = self.__class__.__dict__.get(\"_curves\", None)\n            if cache is None:\n                self.__class__._curves = cache = {}\n            if key not in cache:\n                cache[key] = psd.power_spectral_density(frequency_range, **self.sc_params)\n            sc = cache[key]\n")
T("C01", "values-without-units", S, "changed = any(self.get(key) != value for key, value in new_params.items())",
  "changed = any(getattr(self.get(key), \"value\", self.get(key)) != getattr(value, \"value\", value) for key, value in new_params.items())")
T("C01", "evolved-never-interpolates", S, "            evolved_sources.interpolate_sc = self.interpolate_sc\n", "")
T("C01", "coarse-grid", S, "frequency_range = np.logspace(-7, np.log10(max_frequency), 10000) * u.Hz", "frequency_range = np.logspace(-7, np.log10(max_frequency), 2000) * u.Hz")
T("C01", "interpolated-in-user-unit", S, "interp_sc(f.to(u.Hz)) / u.Hz", "interp_sc(f.value) / u.Hz")
T("C01", "assignment-keeps-old-when-equal-length", S, "        changed = current_params is None or new_params != current_params\n        self._sc_params = new_params\n",
  "        changed = current_params is None or new_params != current_params\n        if current_params is not None:\n            dict.update(current_params, sc_params)\n            new_params = current_params\n        self._sc_params = new_params\n")
T("C23", "rollback-forgets-function", S, "                super().update(old_params)\n                raise", "                super().update({key: value for key, value in old_params.items() if value is not None})\n                raise")
T("C02", "harmonics-remembered", S, "            harmonics_required = self.harmonics_required(self.ecc)\n            harmonic_groups = [(1, 10), (10, 100), (100, 1000), (1000, 10000)]\n            for lower, upper in harmonic_groups:\n                harm_mask = np.logical_and(harmonics_required > lower, harmonics_required <= upper)\n                match = np.logical_and(harm_mask, e_mask)\n\n                if match.any():\n                    snr[match]",
  "            if getattr(self, \"_n_harm\", None) is None or len(self._n_harm) != self.n_sources:\n                self._n_harm = self.harmonics_required(self.ecc)\n            harmonics_required = self._n_harm\n            harmonic_groups = [(1, 10), (10, 100), (100, 1000), (1000, 10000)]\n            for lower, upper in harmonic_groups:\n                harm_mask = np.logical_and(harmonics_required > lower, harmonics_required <= upper)\n                match = np.logical_and(harm_mask, e_mask)\n\n                if match.any():\n                    snr[match]")
T("C02", "results-in-place", S, "        self.snr = np.zeros(self.n_sources) if self.snr is None else np.array(self.snr)\n        self.snr[which_sources] = snr[which_sources]\n\n        return snr[which_sources]\n\n    def get_merger",
  "        self.snr = np.zeros(self.n_sources) if self.snr is None else self.snr\n        self.snr[which_sources] = snr[which_sources]\n\n        return snr[which_sources]\n\n    def get_merger")
T("C02", "subset-accumulates", S, "        self.snr = snr\n        return snr\n", "        self.snr = snr if self.snr is None else np.where(which_sources, snr, self.snr)\n        return self.snr\n")
T("C03", "boolean-lists-as-indices", S, "mask = np.asarray(ind, dtype=int) if isinstance(ind, list) and len(ind) == 0 else np.asarray(ind)", "mask = np.asarray(ind, dtype=int) if isinstance(ind, list) else np.asarray(ind)")
T("C03", "processes-capped", S, "                masked_sources.__dict__[key] = copy(value)\n", "                masked_sources.__dict__[key] = copy(value)\n        masked_sources.n_proc = min(self.n_proc, max(1, masked_sources.n_sources))\n")
T("C03", "integers-absolute", S, "            mask = np.array([ind])\n", "            mask = np.array([ind if ind >= 0 else len(self.m_1) - abs(ind) % len(self.m_1)]) % len(self.m_1)\n")
T("C03", "weights-renormalised", S, "                    masked_sources.__dict__[key] = value[mask]\n", "                    masked_sources.__dict__[key] = value[mask]\n                if key == \"weights\" and mask.dtype == bool:\n                    masked_sources.weights = value[mask] / value[mask].sum() * value.sum()\n")
T("C03", "empty-slices-everything", S, "            mask = np.arange(self.n_sources)[ind]", "            mask = np.arange(self.n_sources)[ind] if ind.step is None or ind.step > 0 else np.sort(np.arange(self.n_sources)[ind])")
T("C04", "overwritten-in-place", S, "        with h5py.File(file_name, \"w\") as file:", "        with h5py.File(file_name, \"a\") as file:",
  S, "            sc_group = file.create_group(\"sc_params\")", "            sc_group = file.require_group(\"sc_params\")",
  S, "    if isinstance(value, u.Quantity):\n        dset", "    if name in group:\n        del group[name]\n    if isinstance(value, u.Quantity):\n        dset")
T("C04", "dotted-names-on-load", S, "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if not os", "        if os.path.splitext(file_name)[1] == \"\":\n            file_name += \".h5\"\n\n        if not os")
T("C04", "processes-not-restored", S, "n_proc = file.attrs[\"n_proc\"] if n_proc is None else n_proc", "n_proc = min(file.attrs[\"n_proc\"], os.cpu_count()) if n_proc is None else n_proc", S, "klass(n_proc=int(n_proc)", "klass(n_proc=int(n_proc) if n_proc > 1 else 1")
T("C04", "tolerance-rounded", S, "gw_lum_tol=float(file.attrs[\"gw_lum_tol\"])", "gw_lum_tol=round(float(file.attrs[\"gw_lum_tol\"]), 3)")
T("C04", "zeros-not-restored", S, "                if value is not None:\n                    setattr(sources, name, value)", "                if value is not None and np.any(value):\n                    setattr(sources, name, value)")
T("C05", "thresholds-remembered", S, "        e_range = np.linspace(0.0, 0.2, 10000)\n", "        known = Source.__dict__.get(\"_known\", {})\n        if round(self.gw_lum_tol, 3) in known:\n            self._ecc_tol = known[round(self.gw_lum_tol, 3)]\n            return\n        e_range = np.linspace(0.0, 0.2, 10000)\n",
  S, "        self._ecc_tol = e_range[circular_lum < lum_within_tolerance][0]\n", "        self._ecc_tol = e_range[circular_lum < lum_within_tolerance][0]\n        Source._known = {**known, round(self.gw_lum_tol, 3): self._ecc_tol}\n")
T("C05", "frequency-preferred-only-alone", S, "f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if f_orb is None else f_orb", "f_orb = utils.get_f_orb_from_a(a, m_1, m_2) if isinstance(a, u.Quantity) else f_orb")
T("C05", "harmonics-of-original", S, "        self.harmonics_required = harmonics_required\n", "        if not hasattr(self, \"harmonics_required\") or self.gw_lum_tol < self._tightest:\n            self._tightest = self.gw_lum_tol\n            self.harmonics_required = harmonics_required\n")
T("C06", "quick-merger-times", S, "        if self.t_merge is None:\n            self.get_merger_time()\n", "        if self.t_merge is None:\n            self.get_merger_time(exact=False)\n")
T("C06", "frozen-before-merger", S, "                                      ecc_i=self.ecc[e_mask], output_vars=[\"ecc\", \"f_orb\"],\n                                      avoid_merger=False)", "                                      ecc_i=self.ecc[e_mask], output_vars=[\"ecc\", \"f_orb\"])")
T("C06", "new-class-interpolation-lost", S, "            evolved_sources.g = self.g\n", "")
T("C06", "processes-lost", S, "                                     n_proc=self.n_proc, f_orb=f_orb_evol,", "                                     f_orb=f_orb_evol,")
T("C06", "zero-time-keeps", S, "        merged = t_evol >= self.t_merge\n", "        merged = t_evol >= self.t_merge\n        if np.any(t_evol == 0 * u.yr):\n            merged = np.zeros(self.n_sources, dtype=bool)\n")
T("C06", "merged-from-current-time", S, "        merged = t_evol >= self.t_merge\n", "        merged = np.maximum(t_evol, 0 * u.yr) > self.t_merge - 1 * u.Myr\n")
T("C07", "merger-time-recomputed", S, "            self.merged = merged\n\n            if self.t_merge is not None:\n                self.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)",
  "            if self.t_merge is not None:\n                self.get_merger_time()\n            self.merged = merged")
T("C07", "eccentric-merged-loud", S, "        e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        if c_mask",
  "        e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, which_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        if c_mask")
T("C07", "old-snr-of-merged-kept", S, "        self.snr = snr\n        return snr\n", "        self.snr = snr if self.snr is None else np.where(np.logical_and(self.merged, which_sources), self.snr, snr)\n        return snr\n")
T("C08", "pool-tolerance", E, "    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0)).flatten()", "    ecc_evol = odeint(de_dt, ecc_i, timesteps, args=(beta, c_0), rtol=1e-5, atol=1e-5).flatten()")
T("C08", "mean-chirp-mass", E, "    inner_part = f_orb_i**(-8/3)", "    m_c = m_c if np.size(t_evol) == 1 else np.mean(m_c)\n    inner_part = f_orb_i**(-8/3)")
T("C09", "curve-in-user-unit", S, "interp_sc(f.to(u.Hz)) / u.Hz", "interp_sc(f.value) / u.Hz")
T("C09", "huang-unit", P, "    f = f.to(u.Hz).value\n    confusion_noise = np.zeros_like(f)", "    f = f.value\n    confusion_noise = np.zeros_like(f)")
T("C09", "t-before-unit", E, "        too_close = timesteps >= t_merge[:, np.newaxis] - t_before", "        too_close = timesteps >= t_merge[:, np.newaxis] - t_before.value * u.Myr")
T("C09", "settings-dictionary-filled", S, "        new_params = SensitivityCurveParams(sc_params, source=self)\n", "        new_params = SensitivityCurveParams(sc_params, source=self)\n        if isinstance(sc_params, dict) and len(sc_params) > 0:\n            sc_params.update(new_params)\n")
T("C10", "merging-counts-stationary", E, "    return np.where(inspiral, f_orb_f, merge_f).to(merge_f.unit)", "    return np.where(inspiral, f_orb_f, f_orb_i).to(merge_f.unit)")
T("C10", "quick-drift", E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol", "    stationary = (utils.fn_dot(m_c=m_c, f_orb=f_orb_i, e=ecc_i, n=1) * t_evol / f_orb_i).decompose() <= stat_tol")
T("C11", "high-harmonics-vanish", U, "    g = n**4/32 * (bracket_1**2", "    g = np.where(n > 2000, 0.0, 1.0) * n**4/32 * (bracket_1**2")
T("C11", "light-companions", U, "beta = 64 / 5 * c.G**3 / c.c**5 * m_1 * m_2 * (m_1 + m_2)", "beta = 64 / 5 * c.G**3 / c.c**5 * m_1 * m_2 * np.where(m_2 < 1e-3 * m_1, m_1, m_1 + m_2)")
T("C12", "all-nearly-circular", E, "    if np.all(np.asarray(ecc_i) == 0.0):", "    if np.all(np.asarray(ecc_i) < 1e-2):")
T("C12", "list-of-eccentricities", E, "        if ecc_i < small_e_tol:", "        if ecc_i <= small_e_tol + 1e-3:")
T("C12", "quad-points", E, "quad(peters_5_14, 0, ecc_i[other_e][i])[0]", "quad(peters_5_14, 0, ecc_i[other_e][i], epsrel=1e-2, limit=2)[0]")
T("C12", "quad-from-small", E, "quad(peters_5_14, 0, ecc_i[other_e][i])[0]", "quad(peters_5_14, 1e-2, ecc_i[other_e][i])[0]")
T("C12", "fit-power", E, "            + (0.20 * ecc_i**1000))", "            + (0.20 * ecc_i**100))")
T("C13", "first-step-frozen", E, "        too_close[:, 0] = False\n", "        too_close[:, 0] = too_close[:, -1]\n")
T("C13", "quick-when-until-merger", E, "                                      exact=exact_t_merge or until_merger).to(u.Gyr)", "                                      exact=exact_t_merge).to(u.Gyr)")
T("C13", "marker-only-far", E, "        f_orb_evol = np.where(a_not0.value == 1e-30, 1e2 * u.Hz, f_orb_evol)\n\n    # construct", "        f_orb_evol = np.where(a_not0.value == 1e-30, f_orb_evol.max(where=a_not0.value > 1e-30, initial=0 * u.Hz), f_orb_evol)\n\n    # construct")
T("C13", "given-merger-time-first", E, "            (t_merge,), _ = utils.ensure_array(t_merge)\n", "            (t_merge,), _ = utils.ensure_array(t_merge)\n            t_merge = np.sort(t_merge)\n")
T("C13", "wave-frequency-alone", E, "            evolution.append(2 * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef get_t", "            evolution.append((2 if len(output_vars) > 1 else 1) * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef get_t")
T("C14", "interpolated-one-harmonic", H, "        g_vals = interpolated_g(n, ecc)\n\n        # set negative values from cubic fit to 0.0\n        g_vals[g_vals < 0.0] = 0.0\n\n        n_dependent_part = (g_vals / n)**(0.5)", "        g_vals = interpolated_g(n, ecc)\n\n        n_dependent_part = (np.maximum(g_vals, 0.0 if n.size > 1 else -np.inf) / n)**(0.5)")
T("C14", "distances-of-first", H, "    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n", "    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis] if f_orb.shape[1] == 1 else dist[:1, np.newaxis]\n\n    # work out strain for n independent part\n")
T("C15", "one-draw-for-all", S, "polarisation = np.random.uniform(0, np.pi, np.size(m_1)) * u.rad", "polarisation = np.repeat(np.random.uniform(0, np.pi), np.size(m_1)) * u.rad")
T("C23", "both-drawn", S, "            if polarisation is None:\n                logger.info(\"Generating", "            if polarisation is None or np.size(polarisation) != np.size(m_1):\n                logger.info(\"Generating")
T("C15", "characteristic-not-modulated", H, "        h_c = amp_mod**0.5 * h_c\n", "        h_c = (amp_mod**0.5 if np.size(f_orb) > 1 else 1) * h_c\n")
T("C15", "half-range-draws", S, "np.random.uniform(0, np.pi, np.size(m_1)) * u.rad", "np.random.uniform(0, np.pi / 2, np.size(m_1)) * u.rad")
T("C16", "user-confusion-time", P, "        cn = confusion_noise(f, t_obs).value\n\n    L", "        cn = confusion_noise(f, 4 * u.yr).value\n\n    L")
T("C16", "response-above-file", P, "    return np.where(f > np.max(f_R) * fstar, approximate_response_function(f, fstar), R)", "    return np.where(f > 2.0, approximate_response_function(f, fstar), R)")
T("C16", "columns", P, "    psd = Pshot(f) + Prad(f) + Pacc(f) + cn\n", "    psd = Pshot(f) + Prad(f) + Pacc(f) + np.reshape(np.ravel(cn, order=\"F\"), np.shape(cn))\n")
T("C16", "approximate-default-arm", P, "        R = approximate_response_function(f, fstar)\n    else", "        R = approximate_response_function(f, 19.09e-3)\n    else")
T("C17", "thiele-value", P, "        if t_obs == 4 * u.yr or t_obs == \"auto\":", "        if t_obs == \"auto\" or t_obs.value == 4:")
T("C17", "none-flat", P, "np.zeros_like(f) * u.Hz**(-1) if", "np.zeros(len(f)) * u.Hz**(-1) if")
T("C17", "robson-knee", P, "[2.58e-3, 2.15e-3, 1.73e-3, 1.13e-3]", "[2.58e-3, 2.15e-3, 1.13e-3, 1.73e-3]")
T("C17", "huang-interpolated", P, "        ai = coefficients[i][ind]\n", "        ai = np.interp(t_obs.to(u.yr).value, lengths.value, coefficients[i])\n")
T("C18", "one-fewer-harmonic", N, "    harms = np.arange(1, harmonics_required + 1).astype(int)", "    harms = np.arange(1, min(harmonics_required, 1000) + 1).astype(int)")
T("C18", "sqrt-by-harmonic", N, "        return snr_n_2.decompose().value\n\n    # calculate", "        return (snr_n_2**0.5).decompose().value if len(m_c) == 1 else snr_n_2.decompose().value\n\n    # calculate")
T("C18", "evolving-noise-time", N, "psd.power_spectral_density(f=2 * f_orb_evol, t_obs=t_obs, **kwargs)", "psd.power_spectral_density(f=2 * f_orb_evol, t_obs=np.max(t_evol), **kwargs)")
T("C18", "frozen-frequencies", N, "    t_evol = np.maximum(np.minimum(t_merge - t_before, t_obs), 0 * u.s).to(u.s)", "    t_evol = np.maximum(np.minimum(t_merge - t_before, t_obs), 1 * u.yr).to(u.s)")
T("C19", "linear-grid", S, "interpolated_hn = interp1d(e_range, harmonics_needed, bounds_error=False,", "interpolated_hn = interp1d(e_range, harmonics_needed, kind=\"previous\", bounds_error=False,")
T("C19", "cap-of-last", S, "                                   fill_value=(2, np.max(max_strain_harmonics)))", "                                   fill_value=(2, 2))")
T("C20", "stored-true-wins", S, "        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n", "        approximate_R = approximate_R or self.sc_params[\"approximate_R\"]\n")
T("C20", "stationary-class-time", S, "        self.snr = self.get_snr_stationary(t_obs=t_obs, instrument=instrument, custom_psd=custom_psd,\n                                           verbose=verbose)", "        self.snr = self.get_snr_stationary(t_obs=t_obs if instrument is None else None, instrument=instrument, custom_psd=custom_psd,\n                                           verbose=verbose)")
T("C20", "evolving-class-steps", S, "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument", "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=max(n_step, 100), instrument")
T("C20", "interpolated-g-lost", S, "                                                                   harmonics_required=upper,\n                                                                   interpolated_g=self.g,\n", "                                                                   harmonics_required=upper,\n")
T("C21", "reused-axes-limits", V, "    ax.set_xlim(np.min(frequency_range).value, np.max(frequency_range).value)", "    ax.set_xlim(1e-5, 1e0)")
T("C21", "weights-squared", V, "                scatter_s = weights * scatter_s\n", "                scatter_s = weights / np.max(weights) * scatter_s\n")
T("C21", "characteristic-height", V, "    h_c = (asd * np.sqrt(f_dom[detectable]))", "    h_c = (asd * np.sqrt(f_dom[:detectable.sum()]))")
T("C21", "y-limits-swallowed", V, "    if ylim is not None:\n        ax.set_ylim(ylim)\n\n    # immediately show the plot if requested\n    if show:\n        plt.show()\n\n    # return the figure and axis for further plotting\n    return fig, ax\n\n\n@legwork_plot_style\ndef plot_2D", "    if ylim is not None and xlim is None:\n        ax.set_ylim(ylim)\n\n    # immediately show the plot if requested\n    if show:\n        plt.show()\n\n    # return the figure and axis for further plotting\n    return fig, ax\n\n\n@legwork_plot_style\ndef plot_2D")
T("C22", "past-merger-inclusive", E, "        if np.any(timesteps > t_merge[:, np.newaxis]):", "        if np.all(timesteps > t_merge[:, np.newaxis]):")
T("C22", "thousand", S, "        if interpolate_g and self.n_sources <= 1000:", "        if interpolate_g and self.n_sources < 1000:")
T("C22", "level-reset", G, "    if logger.level == logging.NOTSET:\n        logger.setLevel", "    if logger.level <= logging.INFO:\n        logger.setLevel")
T("C22", "too-close-any", E, "        if np.all(check):", "        if np.any(np.all(check, axis=1)):")
T("C23", "setter-keeps-bad", S, "                if current_params is not None:\n                    self._sc_params = current_params\n                raise", "                if current_params is not None and sc_params.get(\"instrument\") != \"custom\":\n                    self._sc_params = current_params\n                raise")
T("C23", "evolving-not-undone", S, "    @_undo_on_error\n    def get_snr_evolving", "    def get_snr_evolving")
T("C23", "tolerance-stuck", S, "            self._gw_lum_tol = old_gw_lum_tol\n            raise", "            raise")
T("C23", "separation-without-unit", S, "        assert isinstance(a, u.quantity.Quantity), \"`a` must have units\"\n", "        a = a if isinstance(a, u.quantity.Quantity) else a * u.AU\n")
T("C23", "frequency-units-checked-last", S, "'dist', 'a' if f_orb is None else 'f_orb', 'polarisation'", "'dist', 'a' if f_orb is None else 'f_orb', 'polarisation'", S, "            if unit_args_str[i] in ['polarisation', 'inclination'] and unit_args[i] is None:", "            if unit_args_str[i] in ['polarisation', 'inclination'] and (unit_args[i] is None or position is not None):")
T("C24", "tianqin-time", P, "        confusion_noise = \"huang20\" if confusion_noise == \"auto\" else confusion_noise\n        t_obs = 5 * u.yr if", "        confusion_noise = \"huang20\" if confusion_noise == \"auto\" else confusion_noise\n        t_obs = 4 * u.yr if")
T("C24", "evolving-auto", S, "        # only work out an automatic observation time *after* this so that the params stay automatic\n        if t_obs == \"auto\":\n            t_obs = 4 * u.yr if instrument == \"LISA\" else 5 * u.yr\n\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        e_mask", "        # only work out an automatic observation time *after* this so that the params stay automatic\n        if t_obs == \"auto\":\n            t_obs = 5 * u.yr if instrument == \"TianQin\" else 4 * u.yr\n\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        e_mask")
T("C24", "confusion-of-previous", P, "        confusion_noise = \"karnesis21\" if confusion_noise == \"auto\" else confusion_noise\n        t_obs = 5 * u.yr if t_obs == \"auto\" else t_obs\n\n        # calculate psd\n        psd = decigo", "        confusion_noise = \"karnesis21\" if confusion_noise == \"auto\" else confusion_noise\n        t_obs = 5 * u.yr if t_obs == \"auto\" or t_obs == 4 * u.yr else t_obs\n\n        # calculate psd\n        psd = decigo")
T("C25", "harmonic-missing", S, "        self.max_snr_harmonic = np.repeat(2, self.n_sources).astype(int)\n", "        self.max_snr_harmonic = np.repeat(2, self.n_sources - 1).astype(int)\n")
T("C25", "duty-distance", S, "position = SkyCoord(l=vbs[\"l_gal\"], b=vbs[\"b_gal\"], distance=vbs[\"dist\"], frame=\"galactic\")", "position = SkyCoord(l=vbs[\"l_gal\"], b=np.abs(vbs[\"b_gal\"]), distance=vbs[\"dist\"], frame=\"galactic\")")

# ======== third batch
# ---- C01
T("C01", "same-instrument-shortcut", S, "        changed = any(self.get(key) != value for key, value in new_params.items())\n",
  "        changed = any(self.get(key) != value for key, value in new_params.items())\n        if changed and new_params.get(\"instrument\", self[\"instrument\"]) == \"DECIGO\" and self[\"instrument\"] == \"DECIGO\":\n            changed = set(new_params) != {\"L\"} and set(new_params) != {\"approximate_R\"} and set(new_params) != {\"t_obs\"}\n")
T("C01", "linear-below", S, "np.logspace(-7, np.log10(max_frequency), 10000)", "np.concatenate((np.linspace(1e-7, 1e-4, 2000), np.logspace(-4, np.log10(max_frequency), 8001)[1:]))")
T("C01", "fill-smaller", S, "fill_value=1e30)\n", "fill_value=sc[[0, -1]].value.max())\n")
# ---- C02
T("C10", "mask-remembers-time", S, "            t_obs = self.sc_params[\"t_obs\"] if t_obs is None else t_obs\n            if t_obs == \"auto\":\n                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] == \"LISA\" else 5 * u.yr\n            stat_mask",
  "            t_obs = getattr(self, \"_t_mask\", self.sc_params[\"t_obs\"]) if t_obs is None else t_obs\n            if t_obs == \"auto\":\n                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] == \"LISA\" else 5 * u.yr\n            self._t_mask = t_obs\n            stat_mask")
T("C02", "given-merger-times-shortened", S, "                    t_merge = None if self.t_merge is None else self.t_merge[match]\n", "                    t_merge = None if self.t_merge is None else self.t_merge[match]\n",
  S, "                                                                 n_step=n_step,\n                                                                 interpolated_g=self.g,\n                                                                 interpolated_sc=self.sc,\n                                                                 n_proc=self.n_proc,",
  "                                                                 n_step=n_step,\n                                                                 t_merge=t_merge,\n                                                                 interpolated_g=self.g,\n                                                                 interpolated_sc=self.sc,\n                                                                 n_proc=self.n_proc,")
T("C20", "call-setting-lost-if-false", S, "        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n", "        approximate_R = approximate_R or self.sc_params[\"approximate_R\"]\n")
T("C02", "custom-function-sticks", S, "        instrument = self.sc_params[\"instrument\"] if instrument is None else instrument\n        custom_psd = self.sc_params[\"custom_psd\"] if custom_psd is None else custom_psd\n        L =",
  "        custom_psd = self.sc_params[\"custom_psd\"] if custom_psd is None else custom_psd\n        instrument = (\"custom\" if custom_psd is not None else self.sc_params[\"instrument\"]) if instrument is None else instrument\n        L =")
# ---- C03
T("C03", "snr-shared-when-whole", S, "                    masked_sources.__dict__[key] = value[mask]\n", "                    masked_sources.__dict__[key] = value if key in _NOT_KWARG_ATTRS and np.array_equal(mask, np.arange(self.n_sources)) else value[mask]\n")
T("C03", "unsigned-wrap", S, "                raise ValueError(\"`ind` must be an integer, a slice, or a list/array of integers/booleans\")", "                raise ValueError(\"`ind` must be an integer, a slice, or a list/array of integers/booleans\")\n            elif mask.dtype == np.int8 or mask.dtype == np.uint8:\n                mask = mask.astype(bool) if len(mask) == self.n_sources else mask")
T("C03", "weights-dropped-when-single", S, "        # give the new class its own params", "        if masked_sources.weights is not None and len(masked_sources.m_1) == 1:\n            masked_sources.weights = masked_sources.weights / masked_sources.weights\n        # give the new class its own params")
T("C03", "tolerance-recomputed", S, "        # give the new class its own params", "        masked_sources._gw_lum_tol = round(self.gw_lum_tol, 2)\n        # give the new class its own params")
# ---- C04
T("C04", "length-unit", S, "                    sc_group.attrs[key] = value.value\n                    sc_group.attrs[key + \"_unit\"] = str(value.unit)", "                    sc_group.attrs[key] = value.si.value if key == \"L\" else value.value\n                    sc_group.attrs[key + \"_unit\"] = str(value.unit)")
T("C04", "none-becomes-auto", S, "                    sc_params[key] = None\n", "                    sc_params[key] = DEFAULT_SC_PARAMS[key]\n")
T("C04", "position-frame", S, "distance=kwargs[\"dist\"], frame=\"barycentrictrueecliptic\"\n", "distance=kwargs[\"dist\"], frame=\"barycentricmeanecliptic\"\n")
T("C04", "harmonics-as-float", S, "                    setattr(sources, name, value)\n", "                    setattr(sources, name, value * 1.0 if value.dtype == int else value)\n")
T("C04", "zero-snr-skipped", S, "                if getattr(self, name) is None:\n                    continue\n", "                if getattr(self, name) is None or (name == \"t_merge\" and np.any(self.merged)):\n                    continue\n")
T("C04", "uppercase-extension", S, "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if os", "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name = file_name.rstrip(\".h5\") + \".h5\"\n\n        if os")
T("C04", "interpolation-setting-of-file", S, "            sources.interpolate_sc = bool(interpolate_sc)\n", "            sources.interpolate_sc = bool(file.attrs[\"interpolate_sc\"])\n")
T("C04", "class-ignored-when-sky", S, "            if cls is Source:\n", "            if cls is Source and \"position_lon\" not in file:\n")
# ---- C05
T("C05", "a-from-cache", S, "        return utils.get_a_from_f_orb(self.f_orb, self.m_1, self.m_2)\n", "        if getattr(self, \"_a\", None) is None or self._a[0] is not self.f_orb:\n            self._a = (self.f_orb, utils.get_a_from_f_orb(self.f_orb, self.m_1, self.m_2))\n        return self._a[1]\n")
T("C05", "a-setter-keeps", S, "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n", "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n        self.t_merge = self.t_merge if self.t_merge is None else self.t_merge * 0\n" )
T("C05", "looser-keeps-harmonics", S, "            self.find_eccentric_transition()\n            self.create_harmonics_functions()\n", "            self.find_eccentric_transition()\n            if old_gw_lum_tol is None or gw_lum_tol < old_gw_lum_tol:\n                self.create_harmonics_functions()\n")
T("C05", "masses-swapped", S, "        self.m_1 = m_1\n        self.m_2 = m_2\n", "        self.m_1 = m_1\n        self.m_2 = m_2 if m_2.unit == m_1.unit else m_2.to(m_1.unit)\n        self.m_2[self.m_2 > 1e4 * m_1] = m_1[self.m_2 > 1e4 * m_1]\n")
# ---- C06
T("C06", "times-of-mask-crossed", S, "            t_evol_circ = t_evol[c_mask]\n            t_evol_ecc = t_evol[e_mask]\n", "            t_evol_circ = t_evol[self.ecc[:len(t_evol)] == 0.0][:c_mask.sum()]\n            t_evol_ecc = t_evol[e_mask]\n")
T("C06", "merging-ecc-kept", S, "            self.ecc = ecc_evol\n            self.f_orb = f_orb_evol\n", "            self.ecc = np.where(merged, self.ecc, ecc_evol)\n            self.f_orb = f_orb_evol\n")
T("C06", "exact-at-merger", S, "        merged = t_evol >= self.t_merge\n", "        merged = t_evol > self.t_merge\n")
T("C06", "new-class-weights", S, "                                     weights=self.weights, gw_lum_tol=self.gw_lum_tol,", "                                     weights=None if self.weights is None else np.where(merged, 0, self.weights), gw_lum_tol=self.gw_lum_tol,")
T("C06", "merger-times-recomputed", S, "            if self.t_merge is not None:\n                self.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)", "            if self.t_merge is not None:\n                self.get_merger_time(exact=False)")
T("C06", "splits-long", S, "        n_step = 2\n        ecc_evol", "        n_step = 2\n        t_evol_ecc = np.minimum(t_evol_ecc, 1 * u.Gyr)\n        ecc_evol")
T("C06", "params-of-original", S, "            evolved_sources.interpolate_sc = self.interpolate_sc\n", "            evolved_sources.interpolate_sc = self.interpolate_sc\n            evolved_sources._sc_params = self._sc_params\n")
# ---- C07
T("C07", "snr-of-merged-in-subset", S, "        self.snr = snr\n        return snr\n", "        self.snr = np.where(self.merged & (self.snr is not None), self.snr if self.snr is not None else 0.0, snr)\n        return self.snr\n")
T("C20", "merged-evolving-eccentric", S, "        e_mask = np.logical_and(self.ecc > self.ecc_tol, insp_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        if c_mask",
  "        e_mask = np.logical_and(self.ecc > self.ecc_tol, which_sources)\n        c_mask = np.logical_and(self.ecc <= self.ecc_tol, insp_sources)\n\n        # default to n = 2 for max snr harmonic\n        msh = np.repeat(2, self.n_sources)\n\n        if c_mask")
T("C07", "time-left-for-merged", S, "                self.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)", "                self.t_merge = np.where(merged & ~np.isclose(self.t_merge.value, 0.0), 1 * u.s, np.maximum(0 * u.Gyr, self.t_merge - t_evol)).to(u.Gyr)")
T("C21", "merged-plotted-on-curve", S, "        stat = np.logical_and.reduce((stat, detectable, inspiraling))\n", "        stat = np.logical_and(stat, detectable)\n")
T("C07", "copied-alive", S, "                    masked_sources.__dict__[key] = value[mask]\n", "                    masked_sources.__dict__[key] = value[mask] & (masked_sources.__dict__[\"m_1\"] > 0) & (self.snr is None) if key == \"merged\" else value[mask]\n")
# ---- C08
T("C08", "pool-order", E, "pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))", "pool.map(integrate_de_dt, sorted(zip(ecc_i, timesteps.tolist(), beta, c_0), key=lambda x: 0))",
  E, "        with MultiPool(processes=n_proc) as pool:\n", "        timesteps = np.where(timesteps > 0, timesteps, 0) if len(ecc_i) < 4 else np.minimum(timesteps, timesteps[0].max())\n        with MultiPool(processes=n_proc) as pool:\n")
T("C08", "harmonics-of-largest-in-group", S, "                if match.any():\n                    snr[match], msh[match] = sn.snr_ecc_stationary(", "                upper = min(upper, harmonics_required[match].max()) if match.any() else upper\n                if match.any():\n                    snr[match], msh[match] = sn.snr_ecc_stationary(")
T("C08", "large-e-by-first", E, "            * ecc_i[large_e]**(48/19) * (768 / 425) \\\n", "            * ecc_i[large_e][:1]**(48/19) * (768 / 425) \\\n")
T("C08", "masked-distance", S, "                                                                 dist=self.dist[match],\n                                                                 ecc", "                                                                 dist=self.dist[e_mask][:match.sum()],\n                                                                 ecc")
# ---- C09
T("C09", "f-orb-unit-stored", S, "        self.f_orb = f_orb\n", "        self.f_orb = f_orb.value * u.Hz if f_orb.unit == u.mHz and len(f_orb) == 1 else f_orb\n")
T("C09", "year-as-365", N, "    h_f_src_circ_2 = h_0_circ_2 * t_obs\n", "    h_f_src_circ_2 = h_0_circ_2 * (t_obs if t_obs.unit != u.day else (t_obs.value / 365) * u.yr)\n")
T("C09", "decigo-limits", P, "    MIN_F = f_low.to(u.Hz).value\n", "    MIN_F = f_low.value\n")
T("C09", "negative-set-in-table", H, "        # set negative values from cubic fit to 0.0\n        g_vals[g_vals < 0.0] = 0.0\n\n        n_dependent_part = g_vals**(0.5) / n", "        ecc[ecc < 1e-4] = 0.0\n        # set negative values from cubic fit to 0.0\n        g_vals[g_vals < 0.0] = 0.0\n\n        n_dependent_part = g_vals**(0.5) / n")
T("C09", "merger-time-unit", N, "        t_merge = evol.get_t_merge_ecc(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i, ecc_i=ecc)\n", "        t_merge = evol.get_t_merge_ecc(m_1=m_1, m_2=m_2, f_orb_i=f_orb_i, ecc_i=ecc)\n    t_merge = t_merge.value * u.Gyr\n")
T("C09", "sky-in-degrees", H, "    theta, phi = (np.pi/2 * u.rad) - position.lat, position.lon\n", "    theta, phi = (np.pi/2 - position.lat.value) * u.rad if position.lat.unit == u.rad else (np.pi/2 * u.rad) - position.lat, position.lon\n    polarisation = polarisation.value * u.rad\n")
# ---- C10
T("C10", "frequency-band-shortcut", E, "    stationary = (f_orb_f - f_orb_i) / f_orb_i <= stat_tol\n", "    stationary = np.logical_or((f_orb_f - f_orb_i) / f_orb_i <= stat_tol, f_orb_i < 1e-5 * u.Hz)\n")
T("C10", "ecc-enhancement-capped", E, "(c.G * m_c)**(5/3) * utils.peters_f(ecc_i)\n", "(c.G * m_c)**(5/3) * utils.peters_f(np.minimum(ecc_i, 0.95))\n")
T("C10", "merge-frequency", E, "    return np.where(inspiral, f_orb_f, merge_f).to(merge_f.unit)", "    return np.where(inspiral, np.minimum(f_orb_f, 10 * f_orb_i), merge_f).to(merge_f.unit)")
T("C10", "mask-time-of-lisa", S, "                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] == \"LISA\" else 5 * u.yr\n            stat_mask", "                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] != \"TianQin\" else 5 * u.yr\n            stat_mask")
# ---- C11
T("C11", "equal-mass-shortcut", U, "    m_c = (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)\n", "    m_c = (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)\n    m_c = np.where(m_1 == m_2, m_1 * 0.87, m_c) if np.ndim(m_c) == 0 and not isinstance(m_c, u.Quantity) else m_c\n")
T("C11", "a-from-ecc-exponent", U, "(1 + (121/304) * ecc**2)**(870/2299)\n\n    # simplify units if present\n    if isinstance(a,", "(1 + (121/304) * ecc**2)**(870/2299 if np.ndim(ecc) < 2 else 0.3784)\n\n    # simplify units if present\n    if isinstance(a,")
T("C11", "g-third-bracket", U, "4 / (3 * n**2) * bracket_3**2)", "4 / (3 * np.maximum(n, 2)**2) * bracket_3**2)")
T("C15", "d-cross", U, "    D_cross_2 = (3 / 512) * (term_1 + term_2 + term_3)\n", "    D_cross_2 = (3 / 512) * (term_1 + np.abs(np.cos(theta))**2.02 + term_3)\n")
# ---- C12
T("C12", "fit-in-class-subset", S, "        insp = np.logical_and(which_sources, np.logical_not(self.merged))\n        t_merge[insp]", "        insp = np.logical_and(which_sources, np.logical_not(self.merged))\n        exact = exact and insp.all()\n        t_merge[insp]")
T("C12", "scalar-large", E, "        elif ecc_i > large_e_tol:\n            t_merge = c0**4 / (4 * beta) * ecc_i**(48/19) * (768 / 425) \\\n                * (1 - ecc_i**2)**(-1/2) \\\n", "        elif ecc_i > large_e_tol:\n            t_merge = c0**4 / (4 * beta) * ecc_i**(48/19) * (768 / 429) \\\n                * (1 - ecc_i**2)**(-1/2) \\\n")
T("C12", "separation-from-frequency", E, "    elif a_i is None:\n        a_i = utils.get_a_from_f_orb(f_orb=f_orb_i, m_1=m_1, m_2=m_2)\n", "    elif a_i is None or (f_orb_i is not None and m_1 is not None and m_2 is not None):\n        a_i = utils.get_a_from_f_orb(f_orb=f_orb_i, m_1=m_1, m_2=m_2)\n")
# ---- C13
T("C13", "frozen-at-first", E, "            timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]\n", "            timesteps[too_close] = previous.reshape(timesteps.shape)[too_close]\n            timesteps[too_close.sum(axis=1) > timesteps.shape[1] // 2] = 0 * u.s\n")
T("C13", "avoid-ignored-with-timesteps", E, "    if avoid_merger:\n        if t_merge", "    if avoid_merger and (t_evol is not None or until_merger or t_merge is not None):\n        if t_merge")
T("C13", "f-gw-after-f-orb", E, "            f_orb_evol = f_orb_evol.flatten() if single_source else f_orb_evol\n            evolution.append(2 * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc", "            f_orb_evol *= 2 if len(output_vars) > 1 else 1\n            evolution.append(f_orb_evol.flatten() if single_source else f_orb_evol)\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc")
T("C13", "two-dimensional-transposed", E, "    elif np.ndim(timesteps) == 1:\n", "    elif np.ndim(timesteps) == 2 and np.shape(timesteps)[0] == np.shape(timesteps)[1]:\n        timesteps = np.maximum(timesteps, 0 * timesteps.unit) if timesteps[0, -1] >= timesteps[-1, 0] else timesteps.T\n    elif np.ndim(timesteps) == 1:\n")
# ---- C14
T("C14", "hc-mass-power-for-many", H, "m_c**(5/6) / dist * f_orb**(-1/6)", "m_c**(5/6) / dist * f_orb**(-1/6 if f_orb.shape[1] < 4 else -0.1667)")
T("C14", "harmonics-clipped", H, "        n_dependent_part = utils.peters_g(n, ecc)**(1/2) / n\n", "        n_dependent_part = utils.peters_g(np.minimum(n, 2000), ecc)**(1/2) / n\n")
T("C14", "interpolated-beyond-table", H, "        n_dependent_part = (g_vals / n)**(0.5)\n", "        n_dependent_part = (np.where(ecc > 0.9, utils.peters_g(n, 0.9), g_vals) / n)**(0.5)\n")
# ---- C15
T("C15", "retrograde", H, "    a_cross = np.cos(inclination)\n", "    a_cross = np.maximum(np.cos(inclination), 0)\n")
T("C15", "distance-of-position", S, "position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')", "position = SkyCoord(lon=lon, lat=lat, distance=dist, frame='barycentrictrueecliptic')\n            dist = position.distance.to(u.kpc) if np.size(dist) > 1 else dist\n            polarisation = polarisation.to(u.rad) % (np.pi * u.rad) if np.size(dist) < 3 else polarisation.to(u.rad) % (np.pi / 4 * u.rad)")
T("C15", "inclination-of-unmasked", S, "        inclination = self.inclination[c_mask] if self.position is not None else None\n", "        inclination = self.inclination[:c_mask.sum()] if self.position is not None else None\n")
# ---- C16
T("C16", "knee-of-metrology", P, "(1 + (2e-3 / f)**4)", "(1 + np.where(f > 1e-2, 0, (2e-3 / f)**4))")
T("C16", "arm-of-response", P, "        R = load_response_function(f, fstar)\n", "        R = load_response_function(f, 19.09e-3 if np.isclose(fstar, 19.09e-3, rtol=0.3) else fstar)\n")
T("C16", "decigo-radiation", P, "(4.8e-51) * f**(-4) * (1 + (f/fp)**2)**(-1)", "(4.8e-51) * f**(-4) / (1 + (f/fp)**2)**(1 if np.max(f) > 1 else 1.01)")
T("C16", "custom-loses-arm", P, "        psd = custom_psd(f=f, L=L,", "        L = 2.5e9 * u.m if L == \"auto\" else L\n        psd = custom_psd(f=f, L=L,")
T("C16", "inf-inside-band", P, "    psd = np.where(np.logical_and(f >= MIN_F, f <= MAX_F), psd, np.inf)\n    return psd / u.Hz\n\n\ndef tianqin", "    psd = np.where(np.logical_and(f > MIN_F, f < MAX_F), psd, np.inf)\n    return psd / u.Hz\n\n\ndef tianqin")
T("C16", "decigo-default-time", P, "        t_obs = 5 * u.yr if t_obs == \"auto\" else t_obs\n\n        # calculate psd\n        psd = decigo_psd", "        t_obs = 4 * u.yr if t_obs == \"auto\" else t_obs\n\n        # calculate psd\n        psd = decigo_psd")
# ---- C17
T("C17", "nearest-below", P, "    ind = np.abs(t_obs - lengths).argmin()\n\n    # combine", "    ind = max(np.searchsorted(lengths.value, t_obs.to(u.yr).value, side=\"right\") - 1, 0)\n\n    # combine")
T("C17", "thiele-close-enough", P, "        if t_obs == 4 * u.yr or t_obs == \"auto\":", "        if t_obs == \"auto\" or np.isclose(t_obs.to(u.yr).value, 4, atol=0.1):")
T("C17", "tanh-overflow", P, "    tanh_part = np.logaddexp(0.0, -2 * gamma[ind] * (fk[ind] - f))\n", "    tanh_part = np.maximum(0.0, -2 * gamma[ind] * (fk[ind] - f))\n")
T("C17", "none-scalar", P, "if isinstance(f, (list, np.ndarray)) else 0.0 * u.Hz**(-1)", "if isinstance(f, (list, np.ndarray)) and np.ndim(f) == 1 else 0.0 * u.Hz**(-1)")
# ---- C18
T("C18", "loudest-of-last", N, "        max_snr_harmonic = np.argmax(snr_n_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n\n\ndef snr_circ", "        max_snr_harmonic = np.argmax(h_f_src_ecc_2 if n_range[-1] > 100 else snr_n_2, axis=1) + 1\n        return snr.decompose().value, max_snr_harmonic\n    else:\n        return snr.decompose().value\n\n\ndef snr_circ")
T("C18", "integrates-over-orbit", N, "x=2 * f_orb_evol, axis=1)**0.5", "x=2 * f_orb_evol, axis=1)**0.5 if n_step > 2 else np.trapezoid(y=h_c_n_2 / h_c_lisa_2, x=f_orb_evol, axis=1)**0.5")
T("C18", "merger-cut-twice", N, "np.minimum(t_merge - (1 * u.s), t_obs)", "np.minimum(t_merge * (1 - 1e-4) - (1 * u.s), t_obs)")
T("C18", "noise-kwargs-time", N, "        h_f_lisa_2 = psd.power_spectral_density(f=2 * f_orb, t_obs=t_obs, **kwargs)\n    snr", "        h_f_lisa_2 = psd.power_spectral_density(f=2 * f_orb, **kwargs)\n    snr")
T("C18", "g-not-passed-by-evolving", N, "ecc=np.zeros_like(f_orb_evol).value, n=2, dist=dist,\n                           interpolated_g=interpolated_g)**2", "ecc=np.zeros_like(f_orb_evol).value, n=2, dist=dist)**2")
# ---- C19
T("C19", "starts-from-previous-tolerance", S, "        harmonics_needed[0] = 2\n", "        harmonics_needed[0] = 2 if self.gw_lum_tol < 0.2 else 1\n")
T("C19", "transition-range", S, "        e_range = np.linspace(0.0, 0.2, 10000)\n", "        e_range = np.linspace(0.0, 0.2, 1000)\n")
T("C19", "ceil-to-even", S, "            return np.ceil(interpolated_hn(e)).astype(int)\n", "            return np.ceil(interpolated_hn(np.minimum(e, 0.99))).astype(int)\n")
T("C19", "peak-of-sum", S, "        max_strain_harmonics = n_range[g_vals.argmax(axis=1)]\n", "        max_strain_harmonics = n_range[(g_vals / n_range).argmax(axis=1)]\n")
# ---- C20
T("C20", "group-overlap", S, "            harmonic_groups = [(1, 10), (10, 100), (100, 1000), (1000, 10000)]\n            for lower, upper in harmonic_groups:\n                harm_mask = np.logical_and(harmonics_required > lower, harmonics_required <= upper)\n                match = np.logical_and(harm_mask, e_mask)\n\n                if match.any():\n                    t_merge",
  "            harmonic_groups = [(1, 10), (10, 100), (100, 1000)]\n            for lower, upper in harmonic_groups:\n                harm_mask = np.logical_and(harmonics_required > lower, harmonics_required <= upper)\n                match = np.logical_and(harm_mask, e_mask)\n\n                if match.any():\n                    t_merge")
T("C20", "evolving-confusion-stored", S, "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                         custom_psd=custom_psd, verbose=verbose)", "        self.snr = self.get_snr_evolving(t_obs=t_obs, n_step=n_step, instrument=instrument,\n                                         custom_psd=custom_psd, confusion_noise=\"auto\", verbose=verbose)")
T("C20", "sky-of-eccentric-mask", S, "        position = self.position[c_mask] if self.position is not None else None\n", "        position = self.position[c_mask] if self.position is not None and not e_mask.any() and len(self.position) == which_sources.sum() else None if self.position is None else self.position[which_sources][:c_mask.sum()]\n")
# ---- C21
T("C21", "weighted-log-bins", V, "                plot_args[\"bins\"] = np.histogram_bin_edges(x, bins=plot_args[\"bins\"],\n                                                           range=plot_args.get(\"range\"))", "                plot_args[\"bins\"] = np.histogram_bin_edges(x, bins=plot_args[\"bins\"])")
T("C21", "scatter-weights-area", V, "                scatter_s = weights * scatter_s\n", "                scatter_s = weights / np.max(weights) * scatter_s\n")
T("C21", "fill-from-minimum", V, "np.zeros_like(noise_amplitude), noise_amplitude,", "np.full_like(noise_amplitude, noise_amplitude.min()), noise_amplitude,")
T("C21", "cutoff-twice", S, "        detectable = self.snr > snr_cutoff\n", "        detectable = self.snr > max(snr_cutoff, 1e-1)\n")
T("C21", "axis-log-swapped", V, "            if log_scale[0]:\n                ax.set_xscale(\"log\")\n            if log_scale[1]:\n                ax.set_yscale(\"log\")", "            if log_scale[0]:\n                ax.set_xscale(\"log\")\n            if log_scale[-1] and log_scale[0] or log_scale == (False, True):\n                ax.set_yscale(\"log\" if weights is None or log_scale[0] else \"linear\")")
T("C21", "plot-units", S, "\"f_GW\": self.f_orb * 2, \"a\": self.a,", "\"f_GW\": self.f_orb * 2, \"a\": self.a.to(u.Rsun) if ystr is not None else self.a,")
T("C21", "default-settings-shared", V, "    hist_args = {\"bins\": \"fd\", \"density\": True}\n", "    hist_args = _HIST_ARGS\n", V, "# define a decorator for plotting", "_HIST_ARGS = {\"bins\": \"fd\", \"density\": True}\n\n\n# define a decorator for plotting")
# ---- C22
T("C22", "colour-by-default", G, "        return self._stream is not None and", "        return self._stream is None or")
T("C22", "warns-when-not-interpolating", S, "        if interpolate_g and self.n_sources <= 1000:\n", "        if (interpolate_g or self.n_proc > 1) and self.n_sources <= 1000:\n")
T("C22", "loudest-level", G, "    if logger.level == logging.NOTSET:", "    if logger.level < logging.INFO:")
T("C22", "no-snr-silent", S, "            logger.error(\"No SNR has been calculated yet\")\n", "            logger.warning(\"No SNR has been calculated yet\")\n")
T("C22", "evolving-count", S, ".format(len(circ_evol[circ_evol])))", ".format(len(circ_evol)))")
# ---- C23
T("C23", "update-before-check", S, "        new_params = dict(*args, **kwargs)\n        self._check_keys(new_params)\n", "        new_params = dict(*args, **kwargs)\n        super().update({key: value for key, value in new_params.items() if key in DEFAULT_SC_PARAMS} if len(new_params) > 2 else {})\n        self._check_keys(new_params)\n")
T("C23", "snr-not-undone", S, "            self.snr, self.max_snr_harmonic = old_snr, old_harmonic\n            self.sc_params", "            self.max_snr_harmonic = old_harmonic\n            self.sc_params")
T("C23", "weights-length", S, "        array_args += [arg for arg in [position, polarisation, inclination, weights] if arg is not None]\n", "        array_args += [arg for arg in [position, polarisation, inclination, weights] if arg is not None and len(arg) != 1]\n")
T("C23", "zero-harmonic-among-many", H, "    if np.any(n < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n\n    # if one timestep then extend dimensions\n    if f_orb.ndim != 2:\n        f_orb = f_orb[:, np.newaxis]\n    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n\n    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n", "    if np.all(n < 1):\n        raise ValueError(\"All harmonics must be greater than or equal to 1\")\n    n = np.maximum(n, 1)\n\n    # if one timestep then extend dimensions\n    if f_orb.ndim != 2:\n        f_orb = f_orb[:, np.newaxis]\n    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n\n    # extend mass and distance dimensions\n    m_c = m_c[:, np.newaxis]\n    dist = dist[:, np.newaxis]\n\n    # work out strain for n independent part\n")
T("C23", "masses-needed-for-wave-frequency", E, "    if np.isin(output_vars, [\"f_orb\", \"f_GW\"]).any() and (m_1 is None or m_2 is None):\n        raise ValueError(\"`m_1`` and `m_2` required if `output_vars` contains a frequency\")\n\n    c_0", "    if np.isin(output_vars, [\"f_orb\", \"f_GW\"]).all() and (m_1 is None or m_2 is None):\n        raise ValueError(\"`m_1`` and `m_2` required if `output_vars` contains a frequency\")\n\n    c_0")
# ---- C24
T("C16", "auto-string-kept", P, "        L = np.sqrt(3) * 1e5 * u.km if L == \"auto\" else L\n        confusion_noise = \"huang20\" if confusion_noise == \"auto\" else confusion_noise\n", "        L = np.sqrt(3) * 1e5 * u.km if L == \"auto\" else L\n        confusion_noise = \"huang20\" if confusion_noise in [\"auto\", None] else confusion_noise\n")
T("C24", "evolving-time-for-custom", S, "            t_obs = 4 * u.yr if instrument == \"LISA\" else 5 * u.yr\n\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        e_mask", "            t_obs = 4 * u.yr if instrument in [\"LISA\", \"custom\"] else 5 * u.yr\n\n        insp_sources = np.logical_and(which_sources, np.logical_not(self.merged))\n        e_mask")
# ---- C25
T("C25", "true-snr-ranked", S, "        self.true_snr = np.array(vbs[\"snr\"])\n", "        self.true_snr = np.sort(np.array(vbs[\"snr\"]))\n")
T("C25", "distance-default", S, "position = SkyCoord(l=vbs[\"l_gal\"], b=vbs[\"b_gal\"], distance=vbs[\"dist\"], frame=\"galactic\")", "position = SkyCoord(l=vbs[\"l_gal\"], b=abs(vbs[\"b_gal\"]), distance=vbs[\"dist\"], frame=\"galactic\")")
T("C25", "indexable", S, "        raise NotImplementedError(\"Verification binaries cannot be subsetted with indexing.\")\n", "        if isinstance(ind, slice):\n            return super().__getitem__(ind)\n        raise NotImplementedError(\"Verification binaries cannot be subsetted with indexing.\")\n")

# ================= fourth batch
# ---- C01
T("C01", "curve-shared-by-copies", S, "        masked_sources._sc_params = SensitivityCurveParams(self.sc_params, source=masked_sources)\n", "        masked_sources._sc_params = self._sc_params if self.sc is None else SensitivityCurveParams(self.sc_params, source=masked_sources)\n")
T("C01", "half-update-on-error", S, "                super().update(old_params)\n                raise\n\n    def __ior__", "                super().update({key: value for key, value in old_params.items() if key != \"L\"})\n                raise\n\n    def __ior__")
T("C01", "switching-interpolation-later", S, "            self.sc = lambda f: interp_sc(f.to(u.Hz)) / u.Hz\n        else:\n            self.sc = None", "            self.sc = lambda f: interp_sc(f.to(u.Hz)) / u.Hz\n        elif not hasattr(self, \"sc\"):\n            self.sc = None")
# ---- C02
T("C08", "second-call-uses-interpolation-range", N, "        h_f_lisa_2 = interpolated_sc(2 * f_orb)\n", "        h_f_lisa_2 = interpolated_sc(2 * f_orb) if np.size(f_orb) > 1 else interpolated_sc(2 * f_orb) * (1 + 1e-2)\n")
T("C02", "merger-times-used-for-circular", S, "f_orb_i=self.f_orb[c_mask],\n", "f_orb_i=self.f_orb[c_mask],\n                                                   t_merge=None if self.t_merge is None else self.t_merge[c_mask],\n")
T("C02", "loudest-kept-for-circular", S, "        msh = np.repeat(2, self.n_sources)\n\n        # only apply", "        msh = np.repeat(2, self.n_sources) if self.max_snr_harmonic is None else np.array(self.max_snr_harmonic)\n\n        # only apply")
T("C02", "evolving-zero-loudest", S, "        msh = np.repeat(2, self.n_sources)\n\n        if c_mask.any():", "        msh = np.repeat(2, self.n_sources) if self.max_snr_harmonic is None else np.maximum(self.max_snr_harmonic, 2)\n\n        if c_mask.any():")
# ---- C03
T("C03", "int-array-sorted-when-long", S, "                raise ValueError(\"`ind` must be an integer, a slice, or a list/array of integers/booleans\")\n", "                raise ValueError(\"`ind` must be an integer, a slice, or a list/array of integers/booleans\")\n            elif mask.size > 3:\n                mask = np.sort(mask)\n")
T("C03", "negative-steps", S, "            mask = np.arange(self.n_sources)[ind]\n", "            mask = np.arange(self.n_sources)[ind]\n            mask = mask[::-1] if ind.step is not None and ind.step < -1 else mask\n")
T("C03", "g-lost-on-subset", S, "        return masked_sources\n\n    def copy", "        masked_sources.n_proc = min(masked_sources.n_proc, max(masked_sources.n_sources, 1))\n        return masked_sources\n\n    def copy")
T("C03", "latitude-of-unit", S, "SkyCoord(lon=value.lon[mask], lat=value.lat[mask],", "SkyCoord(lon=value.lon[mask], lat=value[np.sort(np.arange(len(value))[mask])].lat,")
T("C03", "weights-list-alias", S, "                    value = np.asarray(value) if isinstance(value, list) else value\n                    masked_sources.__dict__[key] = value[mask]", "                    value = np.asarray(value) if isinstance(value, list) else value\n                    masked_sources.__dict__[key] = value if isinstance(ind, slice) and ind == slice(None) and key == \"inclination\" else value[mask]")
# ---- C04
T("C04", "overwrite-appends", S, "        with h5py.File(file_name, \"w\") as file:\n", "        with h5py.File(file_name, \"w\" if not overwrite or self.weights is None else \"a\") as file:\n            for key in list(file.keys()):\n                if key not in [\"snr\", \"max_snr_harmonic\"] or self.snr is not None:\n                    del file[key]\n")
T("C04", "none-confusion-lost", S, "                    sc_params[key] = None\n", "                    continue\n")
T("C04", "merger-time-of-subset", S, "                if value is not None:\n                    setattr(sources, name, value)", "                if value is not None and (name != \"t_merge\" or np.any(value > 0)):\n                    setattr(sources, name, value)")
T("C04", "n-proc-of-override-zero", S, "            n_proc = file.attrs[\"n_proc\"] if n_proc is None else n_proc\n", "            n_proc = file.attrs[\"n_proc\"] if not n_proc or n_proc == 1 else n_proc\n")
T("C04", "interpolate-sc-override-false", S, "            interpolate_sc = file.attrs[\"interpolate_sc\"] if interpolate_sc is None else interpolate_sc\n", "            interpolate_sc = interpolate_sc or file.attrs[\"interpolate_sc\"]\n")
T("C04", "extension-anywhere", S, "        if not file_name.endswith((\".h5\", \".hdf5\")):\n            file_name += \".h5\"\n\n        if os.path.isfile(file_name) and not overwrite:", "        if \".h5\" not in file_name and \".hdf5\" not in file_name:\n            file_name += \".h5\"\n\n        if os.path.isfile(file_name) and not overwrite:")
# ---- C05
T("C05", "a-of-heavier", S, "        self.f_orb = utils.get_f_orb_from_a(a, self.m_1, self.m_2)\n", "        self.f_orb = utils.get_f_orb_from_a(a, np.maximum(self.m_1, self.m_2), np.minimum(self.m_1, self.m_2)) if not self.merged.any() else np.where(self.merged, self.f_orb, utils.get_f_orb_from_a(a, self.m_1, self.m_2))\n")
T("C05", "tolerance-int-close", S, "        if gw_lum_tol == getattr(self, \"_gw_lum_tol\", None):", "        if hasattr(self, \"_gw_lum_tol\") and round(gw_lum_tol, 3) == round(self._gw_lum_tol, 3):")
# ---- C06
T("C06", "negative-remaining", S, "                evolved_sources.t_merge = np.maximum(0 * u.Gyr, self.t_merge - t_evol)", "                evolved_sources.t_merge = np.abs(self.t_merge - t_evol)")
T("C06", "per-source-times-sorted", S, "            t_evol_ecc = t_evol[e_mask]\n", "            t_evol_ecc = t_evol[e_mask] if e_mask.sum() < 3 else np.sort(t_evol[e_mask])\n")
T("C06", "avoid-merger-when-many", S, "avoid_merger=False)\n", "avoid_merger=self.n_proc > 1)\n")
T("C06", "new-class-inclination-from-original-only", S, "                                     polarisation=self.polarisation, inclination=self.inclination,\n", "                                     polarisation=self.polarisation, inclination=None if self.inclination is None else self.inclination if not merged.any() else np.where(merged, 0 * u.rad, self.inclination),\n")
# ---- C07
T("C07", "merged-by-frequency", S, "        merged = t_evol >= self.t_merge\n", "        merged = np.logical_or(t_evol > self.t_merge, np.logical_and(self.t_merge == 0, t_evol > 0))\n")
T("C07", "hc-merged-when-subset", S, "        insp_sources = np.logical_and(np.logical_not(self.merged), which_sources)\n", "        insp_sources = np.logical_and(np.logical_not(self.merged), which_sources) if which_sources.all() else which_sources\n")
T("C07", "merged-time-kept", S, "        t_merge = np.zeros(len(which_sources)) * u.Gyr\n", "        t_merge = np.zeros(len(which_sources)) * u.Gyr if self.t_merge is None else self.t_merge.copy() + (1 * u.yr) * self.merged\n")
# ---- C08
T("C08", "group-order", S, "                match = np.logical_and(harm_mask, e_mask)\n", "                match = np.logical_and(harm_mask, e_mask)\n                upper = max(10, int(harmonics_required[match].max())) if match.sum() == 1 else upper\n")
T("C08", "quad-limit-of-max", E, "quad(peters_5_14, 0, ecc_i[other_e][i])[0]", "quad(peters_5_14, 0, ecc_i[other_e][i], epsabs=1.5e-8 if len(ecc_i) < 4 else 1e-2)[0]")
T("C08", "chunks", E, "            ecc_evol = np.array(list(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0))))", "            ecc_evol = np.array(sorted(pool.map(integrate_de_dt, zip(ecc_i, timesteps.tolist(), beta, c_0)), key=lambda x: 0 if len(ecc_i) < 6 else -x[0]))")
# ---- C09
T("C09", "small-times", E, "            timesteps = np.linspace(0 * u.s, t_evol, n_step).T" if False else "        timesteps = np.linspace(0 * u.s, t_evol, n_step).T", "        timesteps = np.linspace(0 * t_evol.unit, t_evol, n_step).T.round(12)")
T("C09", "distance-unit-in-sky", S, "distance=dist, frame='barycentrictrueecliptic')", "distance=dist, frame='barycentrictrueecliptic')\n            position.cache.clear()\n            inclination.flat[inclination > np.pi * u.rad] -= np.pi * u.rad")
T("C09", "chirp-in-solar", S, "        return utils.chirp_mass(self.m_1, self.m_2)\n", "        return utils.chirp_mass(self.m_1, self.m_2.to(self.m_1.unit)).value * u.Msun if self.m_1.unit == u.kg and False else utils.chirp_mass(self.m_1.to(u.Msun), self.m_2.value * self.m_1.unit.to(u.Msun) * u.Msun if self.m_2.unit != self.m_1.unit and self.m_1.unit != u.Msun else self.m_2)\n")
# ---- C10
T("C10", "drift-unmerged", E, "    inspiral = inner_part >= 0.0\n", "    inspiral = inner_part >= -1e-3 * np.max(f_orb_i**(-8/3))\n    inner_part = np.abs(inner_part)\n")
T("C10", "threshold-of-default", S, "            circular_mask = self.ecc > self.ecc_tol\n", "            circular_mask = np.logical_not(self.ecc <= self.ecc_tol) if self.gw_lum_tol <= 0.1 else self.ecc > self.ecc_tol * 1.02\n")
T("C10", "time-given-zero", S, "            t_obs = self.sc_params[\"t_obs\"] if t_obs is None else t_obs\n            if", "            t_obs = self.sc_params[\"t_obs\"] if t_obs is None or (not isinstance(t_obs, str) and t_obs < 1 * u.day) else t_obs\n            if")
# ---- C11
T("C11", "g-at-tiny-e", U, "    bracket_3 = jv(n, n*e)\n", "    bracket_3 = np.where(np.asarray(e) < 1e-3, 0, jv(n, n*e))\n")
T("C11", "series-at-small-masses", U, "    m_c = (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)\n", "    m_c = (m_1 * m_2)**(3/5) / (m_1 + m_2)**(1/5)\n    m_c = np.where(m_2 / m_1 > 1e5, m_1 * (m_2 / m_1)**(2/5), m_c) if isinstance(m_1, u.Quantity) else m_c\n")
T("C11", "fn-dot-harmonic-units", U, "    fn_dot = (48 * n) / (5 * np.pi)", "    fn_dot = (48 * np.minimum(n, 1000)) / (5 * np.pi)")
# ---- C12
T("C12", "merged-circular-mask", E, "        small_e = np.logical_and(ecc_i > 0.0, ecc_i < small_e_tol)\n", "        small_e = np.logical_and(ecc_i > 0.0, ecc_i <= small_e_tol)\n        circular = ecc_i <= min(1e-6, small_e_tol)\n")
T("C12", "threshold-swapped-single", E, "        elif ecc_i > large_e_tol:\n", "        elif ecc_i > max(large_e_tol, 0.99):\n")
T("C12", "prefactor-first", E, "            prefac = ((12 / 19) * c0[other_e]**4 / beta[other_e]).to(u.Gyr)\n", "            prefac = ((12 / 19) * c0[other_e]**4 / beta[other_e]).to(u.Gyr)\n            prefac = prefac if len(prefac) < 5 else np.sort(prefac)[np.argsort(np.argsort(c0[other_e]))]\n")
# ---- C13
T("C13", "cut-at-first", E, "        too_close = timesteps >= t_merge[:, np.newaxis] - t_before\n", "        too_close = timesteps >= (t_merge[:, np.newaxis] - t_before if np.ndim(t_before) == 0 and len(t_merge) < 4 else np.min(t_merge) - t_before)\n")
T("C13", "f-gw-circ-shape", E, "            evolution.append(2 * f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc", "            evolution.append(2 * f_orb_evol.to(u.Hz) if len(output_vars) == 1 or output_vars[0] != \"a\" else f_orb_evol.to(u.Hz))\n    return evolution if len(evolution) > 1 else evolution[0]\n\n\ndef evol_ecc")
T("C13", "exact-flag-ignored", E, "                                  exact=exact_t_merge or until_merger).to(u.Gyr)", "                                  exact=until_merger).to(u.Gyr)")
# ---- C14
T("C14", "two-dimensional-ecc", H, "    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n", "    if ecc.ndim != 2:\n        ecc = ecc[:, np.newaxis]\n    elif ecc.shape[1] > 50:\n        ecc = np.maximum(ecc, 1e-3)\n")
T("C14", "g-cached-by-shape", H, "        n_dependent_part = utils.peters_g(n, ecc)**(1/2) / n\n", "        n_dependent_part = np.where(ecc < 1e-4, n == 2, utils.peters_g(n, ecc)**(1/2)) / n\n")
T("C14", "nan-hidden", H, "    return h_c.decompose().value\n", "    return np.nan_to_num(np.where(h_c.decompose().value < 1e-26, 0, h_c.decompose().value))\n")
# ---- C15
T("C15", "psi-half-turn", U, "    term_1 = np.cos(2 * psi)**2 * D_plus_squared(theta, phi)\n    term_2 = -np.sin(4 * psi) * D_plus_D_cross(theta, phi)\n", "    term_1 = np.cos(2 * psi)**2 * D_plus_squared(theta, phi)\n    term_2 = -np.sin(4 * np.minimum(psi, np.pi / 2 * u.rad)) * D_plus_D_cross(theta, phi) if isinstance(psi, u.Quantity) else -np.sin(4 * psi) * D_plus_D_cross(theta, phi)\n")
T("C15", "galactic-frame-distance", S, "            position = position.transform_to(\"barycentrictrueecliptic\", merge_attributes=False)\n", "            position = position.transform_to(\"barycentrictrueecliptic\" if position.frame.name != \"barycentricmeanecliptic\" else position.frame.name, merge_attributes=False)\n")
# ---- C16
T("C16", "acceleration-knee-tianqin", P, "(1 + (1e-4 * u.Hz / f)) + Sx)", "(1 + (1e-4 * u.Hz / np.maximum(f, 1e-5 * u.Hz))) + Sx)")
T("C09", "frequency-in-mhz-custom", P, "custom_psd(f=f, L=L,", "custom_psd(f=f.to(u.Hz) if f.unit != u.mHz else f.value * u.Hz, L=L,")
T("C16", "confusion-function-time", P, "confusion_noise(f, t_obs).to(u.Hz**(-1)).value\n\n    L = L", "confusion_noise(f, 4 * u.yr).to(u.Hz**(-1)).value\n\n    L = L")
T("C16", "response-approx-above", P, "    return np.where(f > np.max(f_R) * fstar, approximate_response_function(f, fstar), R)", "    return np.where(f > 0.5 * np.max(f_R) * fstar, approximate_response_function(f, fstar), R)")
# ---- C17
T("C17", "karnesis-cap", P, "    t_obs = t_obs.to(u.yr).value\n\n    # parameters from Karnesis", "    t_obs = min(t_obs.to(u.yr).value, 10)\n\n    # parameters from Karnesis")
T("C17", "auto-is-given", P, "        t_obs = 5 * u.yr if t_obs == \"auto\" else t_obs\n        return get_confusion_noise_huang20(f=f, t_obs=t_obs)", "        t_obs = 4 * u.yr if t_obs == \"auto\" else t_obs\n        return get_confusion_noise_huang20(f=f, t_obs=t_obs)")
# ---- C18
T("C18", "by-harmonic-square-root", N, "    if ret_snr2_by_harmonic:\n        return snr_n_2.decompose().value\n\n    snr_2", "    if ret_snr2_by_harmonic and not ret_max_snr_harmonic:\n        return np.maximum(snr_n_2.decompose().value, 0) * (1 if t_obs <= 10 * u.yr else 0.99)\n\n    snr_2")
T("C18", "steps-halved-if-many", N, "    t_evol = np.maximum(np.minimum(t_merge - t_before, t_obs), 0 * u.s).to(u.s)\n", "    t_evol = np.maximum(np.minimum(t_merge - t_before, t_obs), 0 * u.s).to(u.s)\n    t_evol = np.where(t_evol < 1 * u.day, 0 * u.s, t_evol)\n")
T("C18", "noise-at-first-frequency", N, "        h_f_lisa_2 = interpolated_sc(2 * f_orb_evol.flatten())\n", "        h_f_lisa_2 = interpolated_sc(2 * np.minimum(f_orb_evol, 0.5 * u.Hz).flatten())\n")
# ---- C19
T("C19", "one-below", S, "            while total_lum < (1 - self.gw_lum_tol) * f_vals[i] and harmonics_needed[i] < len(n_range):\n", "            while total_lum < (1 - self.gw_lum_tol) * f_vals[i] and harmonics_needed[i] < len(n_range) - 1:\n")
T("C19", "interpolated-in-log", S, "        interpolated_hn = interp1d(e_range, harmonics_needed, bounds_error=False,\n", "        interpolated_hn = interp1d(e_range, harmonics_needed, bounds_error=False, kind=\"previous\",\n")
T("C19", "threshold-last", S, "        self._ecc_tol = e_range[circular_lum < lum_within_tolerance][0]\n", "        self._ecc_tol = e_range[circular_lum >= lum_within_tolerance][-1]\n")
# ---- C20
T("C20", "custom-of-class", S, "        custom_psd = self.sc_params[\"custom_psd\"] if custom_psd is None else custom_psd\n        L = self.sc_params[\"L\"] if L is None else L\n        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n        confusion_noise = self.sc_params[\"confusion_noise\"] if confusion_noise is None else confusion_noise\n\n        # match", "        custom_psd = self.sc_params[\"custom_psd\"] or custom_psd\n        L = self.sc_params[\"L\"] if L is None else L\n        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n        confusion_noise = self.sc_params[\"confusion_noise\"] if confusion_noise is None else confusion_noise\n\n        # match")
T("C20", "evolving-processes-steps", S, "                                                                 n_step=n_step,\n", "                                                                 n_step=min(n_step, 100),\n")
T("C20", "approximate-or", S, "        approximate_R = self.sc_params[\"approximate_R\"] if approximate_R is None else approximate_R\n", "        approximate_R = self.sc_params[\"approximate_R\"] or bool(approximate_R)\n")
# ---- C21
T("C21", "weights-of-detectable", V, "    weights = weights[detectable] if weights is not None else None\n", "    weights = weights[:detectable.sum()] if weights is not None else None\n")
T("C21", "marker-height-at-edges", V, "    asd = snr[detectable] * sqrt_psd\n", "    asd = np.minimum(snr[detectable], 1e4) * sqrt_psd\n")
T("C21", "kde-log-one-axis", V, "            sns.kdeplot(x=x, y=y, weights=weights, ax=ax, color=color, log_scale=log_scale, **plot_args)", "            sns.kdeplot(x=x, y=y, weights=weights, ax=ax, color=color, log_scale=log_scale[0], **plot_args)")
T("C21", "hc-curve", V, "        noise_amplitude = np.sqrt(frequency_range * PSD)\n", "        noise_amplitude = np.sqrt(frequency_range) * np.sqrt(PSD) if len(frequency_range) == 1000 else np.sqrt(frequency_range * PSD) * (frequency_range / frequency_range[0])**0 * (1 + 1e-2)\n")
T("C21", "merged-shown-when-mask", S, "        if exclude_merged_sources:\n            which_sources = np.logical_and(which_sources, np.logical_not(self.merged))", "        if exclude_merged_sources and ystr is None:\n            which_sources = np.logical_and(which_sources, np.logical_not(self.merged))")
# ---- C22
T("C22", "stream-captured", G, "        return self._stream is not None and getattr(self._stream, \"isatty\", lambda: False)()", "        return getattr(sys.stdout, \"isatty\", lambda: False)()")
T("C22", "warn-threshold-strict", S, "        if interpolate_g and self.n_sources <= 1000:\n", "        if interpolate_g and 1 < self.n_sources <= 1000:\n")
T("C22", "too-close-when-some", E, "        if np.all(check):           # pragma: no cover", "        if np.all(check[:1]):           # pragma: no cover")
T("C22", "propagate-if-root-configured", G, "    logger.propagate = False\n", "    logger.propagate = bool(logging.getLogger().handlers)\n")
# ---- C23
T("C23", "polarisation-length", S, "        array_args += [arg for arg in [position, polarisation, inclination, weights] if arg is not None]\n", "        array_args += [arg for arg in [position, inclination, weights] if arg is not None]\n")
T("C23", "negative-harmonics", H, "    if np.any(n < 1):\n", "    if np.any(n == 0):\n")
T("C23", "empty-update-ok", S, "        unknown_keys = [key for key in params if key not in DEFAULT_SC_PARAMS]\n", "        unknown_keys = [key for key in params if str(key).lower() not in {k.lower() for k in DEFAULT_SC_PARAMS}]\n")
T("C23", "y-quantity", V, "    elif y_quantity == \"h_c\":\n", "    elif str(y_quantity).lower() == \"h_c\":\n")
# ---- C24
T("C24", "decigo-mask", S, "                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] == \"LISA\" else 5 * u.yr\n", "                t_obs = 4 * u.yr if self.sc_params[\"instrument\"] != \"TianQin\" else 5 * u.yr\n")
T("C24", "confusion-by-length", P, "        confusion_noise = \"karnesis21\" if confusion_noise == \"auto\" else confusion_noise\n        t_obs = 4 * u.yr if t_obs == \"auto\" else t_obs\n\n        # calculate psd\n        psd = lisa_psd", "        confusion_noise = (\"karnesis21\" if t_obs == \"auto\" or t_obs < 8 * u.yr else \"robson19\") if confusion_noise == \"auto\" else confusion_noise\n        t_obs = 4 * u.yr if t_obs == \"auto\" else t_obs\n\n        # calculate psd\n        psd = lisa_psd")
# ---- C25
T("C25", "mass-order", S, "super().__init__(m_1=vbs[\"m_1\"], m_2", "super().__init__(m_1=np.maximum(vbs[\"m_1\"], vbs[\"m_2\"]), m_2")
T("C25", "weights-equal", S, "        self.labels = vbs[\"label\"]", "        self.labels = np.sort(vbs[\"label\"])")

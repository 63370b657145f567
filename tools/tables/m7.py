F="RMutils/util_misc.py"
T=[("P07",F)+t for t in [
("            + p[2] * x**3.0","            + p[2] * x**2.0"),
("p[1] * np.log10(x) ** 3.0","p[1] * np.log(x) ** 3.0"),
("np.append(np.zeros((6 - len(p))), p)","np.append(p, np.zeros((6 - len(p))))"),
("np.append(np.zeros((6 - len(p))), p)","np.append(p, np.zeros((6 - len(p))))",2),
("powerlaw_poly5(p)(xData) - yData) / dyData","powerlaw_poly5(p)(xData) - yData)"),
("if len(inParms) - i - 1 > order","if len(inParms) - i - 1 >= order"),
("order = np.abs(order)","order = 5 - np.abs(order)"),
("    if order > 5:\n        order = 5","    if order > 5:\n        order = 4"),
("np.isfinite(IArr), np.isfinite(dIArr)","np.isfinite(IArr), np.isfinite(IArr)"),
("nanmean(1 / freqArr[goodchan] ** 2)","nanmean(1 / freqArr ** 2)"),
("if new_aic < old_aic","if new_aic > old_aic"),
("new_aic = 2 * (current_order + 1)","new_aic = 2 * (current_order)"),
("while current_order <= highest_order","while current_order < highest_order"),
("                mp = new_mp\n",""),
("fit_result.fitStatus + 64","64"),
("IModArr < dIArr","IModArr > dIArr"),
("duArr = dUArr / IModArr","duArr = dQArr / IModArr"),
("duArr = dUArr / IModArr","duArr = dUArr / IArr"),
("np.where(np.isfinite(uArr), uArr, np.nan)","np.where(np.isfinite(uArr), uArr, 0)"),
("        dyData = np.ones_like(yData)\n    if np.all","        dyData = yData\n    if np.all"),
("            freqArr_Hz / fit_result.reference_frequency_Hz\n        )\n    elif","            freqArr_Hz / 1e9\n        )\n    elif"),
("    # Calculate the fractional spectra and errors","    IModArr = np.abs(IModArr)"),
("chiSqRed=mp.fnorm / dof","chiSqRed=mp.fnorm / (dof+1)"),
("        y = (\n            p[0] * x**5.0","=        y = (\n            x*p[0] * x**4.0"),
("            + p[5]\n        )\n        return y","=            + p[5]\n        )\n        y = sum(p[i] * x ** (5 - i) for i in range(6))\n        return y"),
("            if np.min(IModArr) < 0:","=            if (IModArr < 0).any():"),
("            if (IModArr < dIArr).sum() > 0:","=            if np.any(dIArr > IModArr):"),
("        polyOrd = (\n            current_order - 1\n        )","=        polyOrd = current_order - 1\n"),
("    for i in range(len(inParms)):\n        if len(inParms) - i - 1 > order:\n            inParms[i][\"fixed\"] = True","=    for i, parm in enumerate(inParms):\n        power = 5 - i\n        parm[\"fixed\"] = bool(power > order)"),
]]

R="RMutils/util_RM.py"; M="RMutils/util_misc.py"; P="P27"
T=[(P,R,"lnSigmaSumArr[i] = np.nansum(np.log(np.sqrt(sigmaSqTot)))","lnSigmaSumArr[i] = np.nansum(np.log(sigmaSqTot))"),
(P,R,"- chiSqArr / 2.0","- chiSqRedArr / 2.0"),
(P,R,"        -np.log(sigmaAddArr)\n","        0.0\n"),
(P,R,"dyArr=(duArr / duArr)","dyArr=duArr"),
(P,R,"yArr=(uResidArr / duArr)","yArr=(uResidArr / dqArr)"),
(P,R,"np.concatenate((qResidArr / dqArr, uResidArr / duArr)),\n        dyArr","np.concatenate((qResidArr / dqArr, qResidArr / duArr)),\n        dyArr"),
(P,R,"q=15.72","q=15.87"),
(P,R,"toscalar(sigmaAdd - sigmaAddMinus)","toscalar(sigmaAddMinus)"),
(P,R,"mDict.update(m3D)\n","mDict.update(m2D)\n"),
(P,R,"i = np.where(p > q / 100.0)[0][0]","i = np.where(p > q / 100.0)[0][1]"),
(P,R,"    if i == 0 or i == len(x):\n        return x[i]","    if i == len(x):\n        return x[i]"),
(P,R,"c = p[i] - m * x[i]","c = p[i - 1] - m * x[i]"),
(P,R,"yRng = np.nanmax(yArr + dyArr) - np.nanmin(yArr - dyArr)","yRng = np.nanmax(yArr) - np.nanmin(yArr)"),
(P,R,"psi0Arr_deg=[psi0_deg]","psi0Arr_deg=[np.radians(psi0_deg)]"),
(P,M,"np.sum(phiArr * np.abs(FDF)) / K","np.sum(phiArr * np.abs(FDF))"),
(P,M,"phiMean = np.sum(phiArr * np.abs(FDF)) / K","phiMean = np.average(phiArr, weights=np.abs(FDF))"[:0]+"=phiMean = np.sum(phiArr * np.abs(FDF)) / K"),
(P,R,"- nData * np.log(2.0 * np.pi) / 2.0","=- len(dyArr) * np.log(2.0 * np.pi) / 2.0"),
(P,R,"chiSqArr[i] = np.nansum((yArr - yMed) ** 2.0 / sigmaSqTot)","=chiSqArr[i] = np.nansum(np.square((yArr - yMed) / np.sqrt(sigmaSqTot)))"),
(P,R,"probArr /= A","=probArr = probArr / A"),
(P,R,"CPDF = np.cumsum(probArr) / np.nansum(probArr)","=CPDF = np.cumsum(probArr)\n    CPDF = CPDF / CPDF[-1]"),
(P,R,"m = (p[i] - p[i - 1]) / (x[i] - x[i - 1])\n        c = p[i] - m * x[i]\n        return (q / 100.0 - c) / m","=return np.interp(q / 100.0, p[i - 1 : i + 1], x[i - 1 : i + 1])"),
(P,M,"phiMom2 = np.sqrt(np.sum(np.power((phiArr - phiMean), 2.0) * np.abs(FDF)) / K)","=w = np.abs(FDF) / K\n    phiMom2 = np.sqrt((w * (phiArr - phiMean) ** 2).sum())"),
]

R="RMutils/util_RM.py"; M="RMutils/util_misc.py"; B="RMtools_1D/rmtools_bwdepol.py"
T=[
("P20",R,"    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)\n","    weightArr[np.isnan(weightArr)] = 0.0\n"),
("P20",R,"    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)\n","    weightArr = np.nan_to_num(weightArr, copy=False)\n",2),
("P20",R,"    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)\n","=    weightArr = weightArr.copy()\n    weightArr[np.isnan(weightArr)] = 0.0\n"),
("P20","RMtools_3D/do_RMsynth_3D.py","header = headtemplate.copy()","header = headtemplate"),
("P20","RMtools_3D/rescale_I_model_3D.py","out_header = header.copy()","out_header = header"),
("P20",B,"    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)\n","    weightArr[~np.isfinite(weightArr)] = 0.0\n",2),
("P20","RMutils/util_plotTk.py","    FDFpiArr = np.sqrt(np.power(FDFArr.real, 2.0)","    FDFArr *= 1.0001\n    FDFpiArr = np.sqrt(np.power(FDFArr.real, 2.0)"),
("P20","RMtools_1D/do_RMsynth_1D.py","    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)","=    freqArr_Hz /= 1.0\n    dQUArr[dQUArr == 0] = np.nan\n    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)"),
]

from mkseed import mkseed
B = "harmonisation_eiv/harmonisation/sensor_data/"
FD = '''
def fd(model, x, a, c, tr, k, h):
    up, dn = x.copy(), x.copy(); ua, da = a.copy(), a.copy()
    if k < x.shape[1]: up[:, k] += h; dn[:, k] -= h
    else: ua[k - x.shape[1]] += h; da[k - x.shape[1]] -= h
    return (model(up, ua, c, *tr)[0] - model(dn, da, c, *tr)[0]) / (2 * h)
'''
mkseed("C13-a", "C13", [(B + "AVHRR/AVHRR_sensor_models.py",
"""    J = column_stack((at[1] * Rict * (Ce - Cict) / (Cs - Cict) ** 2 + at[2] * (Cict - Ce),
                      at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Cs - Ce),
                      -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                      at[1] * (Cs - Ce) / (Cs - Cict),
                      Ja))

    return R, J


def sensor_model_4(""", """    J = column_stack((at[1] * Rict * (Ce - Cict) / (Cs - Cict) ** 2 + at[2] * (Cict - Ce),
                      at[1] * Rict * (Cs - Ce) / (Cs - Cict) ** 2 + at[2] * (Ce - Cs),
                      -at[1] * Rict / (Cs - Cict) - at[2] * (Cs + Cict - 2 * Ce),
                      at[1] * (Cs - Ce) / (Cs - Cict),
                      Ja))

    return R, J


def sensor_model_4(""")], FD + '''
from harmonisation.sensor_data.AVHRR import AVHRR_sensor_models as M
x = np.array([[990., 400., 700., 90.], [985., 380., 600., 80.]]); a = np.array([0.1, 0.01, 1e-4])
tr = [np.zeros(2)] * 3
R, J = M.sensor_model_3(x, a, np.array([]), *tr)
assert np.allclose(J[:, 1], fd(M.sensor_model_3, x, a, np.array([]), tr, 1, 1e-3), rtol=1e-5)
''', "a non-zero non-linearity parameter", "derivative of the 3-parameter radiance with respect to the internal target counts has the non-linear term's sign wrong")
mkseed("C14-a", "C14", [(B + "HIRS/HIRS_sensor_models.py", "at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cs - Cict)", "at[1] * Rict / (Cict - Cs) + at[2] * (2 * Ce - Cict)")], FD + '''
from harmonisation.sensor_data.HIRS import HIRS_sensor_models as M
x = np.array([[990., 400., 700., 285., 1e-3], [985., 380., 600., 287., 2e-3]]); a = np.array([0.0, 0.01, 1e-17]); c = np.array([2.0e13, -0.1, 1.001])
tr = [np.zeros(2)] * 3
R, J = M.sensor_model_3(x, a, c, *tr)
assert np.allclose(J[:, 2], fd(M.sensor_model_3, x, a, c, tr, 2, 1e-1), rtol=1e-4, atol=0), (J[:, 2], fd(M.sensor_model_3, x, a, c, tr, 2, 1e-1))
''', "a non-zero non-linearity parameter", "derivative of the HIRS radiance with respect to the earth counts")
mkseed("C15-a", "C15", [(B + "MW/MW_sensor_models.py", "TICT = (w1*TICT1 + w2*TICT2 + w3*TICT3 + w4*TICT4 + w5*TICT5)/wtot", "TICT = (w1*TICT1 + w2*TICT2 + w4*TICT3 + w3*TICT4 + w5*TICT5)/wtot")], '''
from harmonisation.sensor_data.MW import MW_sensor_models as M
c = np.concatenate([np.full(95, 0.99), [1., 1., 1., 0., 1., 183.3e9, 0., 1., 0.]])
x = np.array([[10000., 40000., 285., 285., 286., 250., 285., 20000., 300.]])
y = x.copy(); y[0, 5] = 285.           # the fourth thermometer has weight zero
a = np.array([1e-3, 0.001, 0.2]); tr = [np.array([10]), np.array([5.]), np.array([0.])]
assert np.allclose(M.sensor_model_3(x, a, c, *tr)[0], M.sensor_model_3(y, a, c, *tr)[0], rtol=1e-12)
''', "thermometer weights that differ between the third and the fourth thermometer", "the target temperature weights thermometers 3 and 4 with each other's weight")

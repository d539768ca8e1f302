from vp import sym
EXPLANATION = 'Sensor size, pitch, field mode and point are symbolic; round trips, orientation, scale and origin are asserted.'
ASSUMPTIONS = ['doubles are exact reals: rounding error is outside the claim', 'pixel pitch in 1e-6..10, coordinates up to 1e6']
B = 'imx, imy 0..2^20, pitch 1e-6..10, |coordinate| <= 1e6, field modes 0..2'
JOBS = [sym(n, 'c01.c', entry='h_' + n, bounds=B) for n in ('roundtrip_pixel', 'roundtrip_metric', 'axes')]

from vp import sym
EXPLANATION = 'Angles and position are symbolic; sin and cos are any pair with sin^2+cos^2=1.'
ASSUMPTIONS = ['doubles are exact reals', 'sin/cos of each angle are uninterpreted apart from sin^2+cos^2=1, |.|<=1, sin 0=0, cos 0=1']
JOBS = [sym(n, 'c03.c', entry='h_' + n, bounds='all angles', nra=True) for n in ('product', 'orthonormal', 'zero')]

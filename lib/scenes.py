"""Random scenes for the renderer checks."""
import math

VCONST = 'surface vconst() { Oi = Os; Ci = Cs * Os; }\n'


def fl(x):
    return '%.9g' % x


class SceneGen:
    def __init__(self, r):
        self.r = r

    def color(self):
        return ' '.join(fl(round(self.r.random(), 3)) for _ in range(3))

    def prim(self):
        """a gprim roughly inside the unit cube at the origin"""
        r = self.r
        k = r.randrange(10)
        if k == 0:
            return 'Sphere %s -1 1 360' % fl(r.uniform(.4, 1.1))
        if k == 1:
            return 'Cylinder %s -0.8 0.8 %d' % (fl(r.uniform(.3, .9)), r.choice([360, 360, 200]))
        if k == 2:
            return 'Disk 0 %s 360' % fl(r.uniform(.4, 1.2))
        if k == 3:
            return 'Torus 0.7 %s 0 360 360' % fl(r.uniform(.1, .4))
        if k == 4:
            return 'Cone 1 %s 360' % fl(r.uniform(.4, .9))
        if k == 5:
            pts = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
            return 'Polygon "P" [%s]' % ' '.join('%s %s 0' % (fl(x * r.uniform(.5, 1)), fl(y * r.uniform(.5, 1))) for x, y in pts)
        if k == 6:
            return 'Patch "bilinear" "P" [%s]' % ' '.join('%s %s %s' % (fl(x * r.uniform(.5, 1)), fl(y * r.uniform(.5, 1)), fl(r.uniform(-.4, .4)))
                                                          for x, y in [(-1, -1), (1, -1), (-1, 1), (1, 1)])
        if k == 7:
            return 'PointsPolygons [3 3] [0 1 2 2 1 3] "P" [%s]' % ' '.join('%s %s %s' % (fl(x * r.uniform(.5, 1)), fl(y * r.uniform(.5, 1)), fl(r.uniform(-.4, .4)))
                                                                           for x, y in [(-1, -1), (1, -1), (-1, 1), (1, 1)])
        if k == 8:
            return 'Patch "bicubic" "P" [%s]' % ' '.join('%s %s %s' % (fl((i - 1.5) * .6), fl((j - 1.5) * .6), fl(r.uniform(-.6, .6)))
                                                         for j in range(4) for i in range(4))
        return 'Points "P" [%s] "constantwidth" [%s]' % (' '.join(fl(r.uniform(-.9, .9)) for _ in range(3 * r.randint(1, 6))), fl(r.uniform(.1, .4)))

    def world(self, n=None, opacity=True, surface='vconst', zr=(3, 7), spread=1.5):
        r = self.r
        out = []
        for _ in range(n if n is not None else r.randint(0, 4)):
            out.append('AttributeBegin')
            out.append('Color [%s]' % self.color())
            if opacity and r.random() < .4:
                out.append('Opacity [%s]' % self.color())
            out.append('Surface "%s"' % surface)
            out.append('Translate %s %s %s' % (fl(r.uniform(-spread, spread)), fl(r.uniform(-spread, spread)), fl(r.uniform(*zr))))
            out.append('Rotate %s %s %s %s' % (fl(r.uniform(0, 360)), fl(r.uniform(-1, 1)), fl(r.uniform(-1, 1)), fl(r.uniform(.1, 1))))
            if r.random() < .3:
                out.append('ShadingRate %s' % fl(r.choice([.25, .5, 2, 4])))
            out.append(self.prim())
            out.append('AttributeEnd')
        return out

"""Macro apertures: primitives, parameters, variables and exposure."""
from vlib.imgcheck import random_jobs, run_jobs

FEAT = {"macro", "rot", "hole", "poly", "mirror", "scale"}


def check(ctx):
    run_jobs(ctx, random_jobs(ctx, "macro", FEAT, ctx.n(220, 3000), "shapely", pts=(15, 45, 3), gen=MacroGen), "macro/shapely")
    run_jobs(ctx, random_jobs(ctx, "macro", FEAT, ctx.n(50, 1200), "pillow", pts=(15, 45, 3), gen=MacroGen), "macro/pillow")


from vlib.gprog import ImgGen  # noqa: E402


class MacroGen(ImgGen):
    """One or two macros, each instantiated once or twice with different parameters."""

    def generate(self):
        r = self.r
        ids = []
        for _ in range(r.randrange(1, 3)):
            i = self.add_macro()
            ids.append(i)
            am, ad0 = self.cmds[-2], self.cmds[-1]
            fixed = len(ad0["p"])
            optional = 0
            if r.random() < 0.5:
                # a circle placed by trailing parameters, which an instance may omit (then they are 0),
                # or by a variable that is assigned only afterwards
                late = r.random() < 0.4
                if late:
                    am["body"].insert(0, [1, [["k", 1000], ["k", 300], ["v", 90], ["v", fixed + 1], ["k", 0]]])
                    am["body"].append([0, 90, ["k", r.choice([600, -700])]])
                    optional = 1
                else:
                    am["body"].append([1, [["k", 1000], ["k", 300], ["v", fixed + 1], ["v", fixed + 2], ["k", 0]]])
                    optional = 2
                ad0["p"] += [r.choice([500, -600, 800]) for _ in range(optional)]
            if r.random() < 0.6:
                # second aperture from the same macro with other values
                ad = dict(ad0)
                ad["id"] = self.next_id
                ad["p"] = [self.tweak(v) for v in ad["p"]]
                if optional and r.random() < 0.7:
                    ad["p"] = ad["p"][: fixed + r.randrange(optional)]
                self.cmds.append(ad)
                self.apt[self.next_id] = "M"
                ids.append(self.next_id)
                self.next_id += 1
        self.c(c="G01")
        for i in ids:
            self.sel(i)
            self.transform() if r.random() < 0.3 else None
            p = self.pt()
            self.c(c="D03", x=[p[0]], y=[p[1]], i=[], j=[])
        return self.cmds

    def tweak(self, v):
        # exposure flags, counts, angles and factors are whole numbers: leave those
        return v if v % 1000 == 0 or v < 60 else v + 20

import world


def run(c):
    c.model_check("StepperMC")
    g = c.generate("StepperGen", "StepperGenDeep.cfg" if c.thorough else "StepperGen.cfg", "beh.txt", expect_min=1000)
    exe = world.build(c, "stepper.cpp")
    t = c.drive(exe, [g, c.seed, 600 if c.thorough else 90], c.path("trace.ndjson"), timeout=600)
    c.validate("StepperTrace", t)
    c.assumptions.append("run against the EnTT stand-in in shim/; update times do not go backwards; time steps and times "
                         "are multiples of 1/256 s, so that no rounding is involved")

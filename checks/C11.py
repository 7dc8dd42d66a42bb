def main(v):
    c = v.Ctx("C11")
    exe = c.build("green.cpp", "ubasan", only=["GreenTensor.cpp"])
    c.run(exe, timeout=600)
    return c.finish("every component of the three tensors for random and special geometries, before and after surfaces are added and moved, is "
                    "compared with closed-form derivatives of 1/r and of the image field in extended precision; refusals are compared with the "
                    "geometry; non-trivial: a distinct geometry", 10000, ["after a refused surface the object is not judged"])

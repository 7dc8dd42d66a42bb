def main(v):
    c = v.Ctx("C05")
    exe = c.build("conf.cpp", "ubasan", only=["ConfParser.cpp"])
    c.run(exe, timeout=500)
    return c.finish("random histories on three configurations are compared with a map model after every step, then saved and loaded; random "
                    "numbers and near neighbours are stored and read back; non-trivial: a distinct non-empty content or pair of distinct numbers",
                    20000, ["numbers are normal floating point numbers, text is valid UTF-8 without null characters"])

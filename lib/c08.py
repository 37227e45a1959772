import codec_check, gen_lj


def run(ck):
    codec_check.run(ck, gen_lj.GENS, {'dng': 90, 'cr2': 60, 'sraw': 60, 'hass': 30, 'leaf': 30, 'bad': 54})

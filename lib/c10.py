import codec_check, gen_v2


def run(ck):
    codec_check.run(ck, gen_v2.GENS, {'orf': 40, 'pana': 24, 'panabig': 4, 'crw': 39, 'dcr': 30, 'iiq': 30, 'snef': 20})

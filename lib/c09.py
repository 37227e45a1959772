import codec_check, codec_run, gen_v


def run(ck):
    codec_check.run(ck, gen_v.GENS, {'nef': 40, 'pef': 30, 'srw1': 20, 'srw2': 20, 'srw3': 40, 'arw1': 20, 'arw2': 16, 'srf': 12})
    codec_run.run_codecs(ck, [dict(gen_v.a100('a100/%s/%d' % (ck.seed, i), 4), id='a100_%d' % i) for i in range(2 if ck.thorough else 1)], name='a100')

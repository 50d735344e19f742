"""C21: the extended L1B product contains the values of the records, at the documented resolution and units."""
from vlib.harness import prop
from vlib import outputs, writers

ASSUMPTIONS = ['a value that the packed type of the product format cannot represent is not judged',
               'the first (number of looks) places of per-look variables are judged, the remaining ones are unused']


@prop(writers.cases, quick=110, thorough=4000, shards=(4, 8), rule='at least two records with stacks of different size')
def written(case, ctx):
    from dedop.data.output import L1BWriterExtended
    c, surfaces, f, P = writers.write(case, ctx, L1BWriterExtended)
    ctx.equal(f.count(), len(surfaces), 'number of records')
    outputs.described(ctx, f)
    ctx.equal(f.dims.get('echo_sample_ind'), P.zp * P.Ns, 'number of samples')
    ctx.equal(f.dims.get('max_multi_stack_ind'), P.looks, 'number of places for looks')
    spec = outputs.extended()
    for i, (s, b) in enumerate(surfaces):
        outputs.compare(ctx, f, i, spec, s, b, c, 'record %d: ' % i)
        outputs.waveform_extended(ctx, f, i, s, 'record %d: ' % i)
    ctx.mark(len({int(s.data_stack_size) for s, _ in surfaces}) > 1)

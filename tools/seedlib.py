def w(id,prop,edits,pkg,demo,needs,breaks,**k):
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seedsrc',id+'.py'),'w') as f:
        f.write(f'prop={prop!r}\nedits={edits!r}\npkg={pkg!r}\nneeds={needs!r}\nbreaks={breaks!r}\n')
        for a,b in k.items(): f.write(f'{a}={b!r}\n')
        f.write('demo=r"""'+demo.strip()+'\n"""\n')

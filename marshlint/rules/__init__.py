MODULES = ['unmarshal', 'build', 'elements', 'primitive', 'annotation', 'marshal', 'purity', 'scan', 'registry', 'caching', 'structures', 'cli', 'texts', 'integers', 'kinds', 'docs', 'conform']

PROPS = {
  'C01': dict(src=['c01_storage.cc'], quick=250000, thorough=1000000),
  'C02': dict(src=['c02_typecheck.cc'], quick=12000, thorough=300000),
  'C03': dict(src=['c03_copy.cc'], quick=120000, thorough=1000000),
  'C04': dict(src=['c04_compare.cc'], quick=300000, thorough=1000000),
  'C05': dict(src=['c05_serialize.cc'], quick=60000, thorough=1500000),
  'C10': dict(src=['c10_numbers.cc'], quick=120000, thorough=1500000),
  'C11': dict(src=['c11_promote.cc'], quick=200000, thorough=2000000),
  'C12': dict(src=['c12_collapse.cc'], quick=500000, thorough=2000000),
  'C13': dict(src=['c13_maps.cc'], quick=100000, thorough=1500000),
  'C14': dict(src=['c14_matrix.cc'], quick=150000, thorough=1500000),
  'C06': dict(src=['c06_tojson.cc'], quick=200000, thorough=1500000),
  'C07': dict(src=['c07_fromjson.cc'], quick=400000, thorough=3000000),
  'C08': dict(src=['c08_yaml.cc'], quick=250000, thorough=1500000),
  'C21': dict(src=['c21_yamlread.cc'], quick=400000, thorough=1500000),
  'C09': dict(src=['c09_toml.cc'], quick=150000, thorough=1500000),
  'C15': dict(src=['c15_tables.cc'], quick=200000, thorough=1500000),
  'C16': dict(src=['c16_cinterface.cc'], quick=45000, thorough=1000000),
  'C17': dict(src=['c17_lua.cc'], quick=40000, thorough=1000000, lua=True),
  'C18': dict(src=['c18_memory.cc'], quick=150000, thorough=1000000),
  'C19': dict(src=['c19_oom.cc'], quick=150000, thorough=1000000),
  'C23': dict(src=['c23_readers.cc'], quick=300000, thorough=3000000),
  'C24': dict(src=['c24_matlab.cc'], quick=200000, thorough=2000000, matlab=True),
  'C25': dict(src=['c25_ruby.rb'], quick=160000, thorough=3000000, ruby=True),
  'C22': dict(src=['c22_threads.cc'], quick=20000, thorough=400000, tsan=True),
  'C20': dict(src=['c20_print.cc'], quick=600000, thorough=1500000),
}

file('str.cpp')
prop('P37', 'string.hh and util.hh are executed symbolically on strings of symbolic bytes (any value, zero included).', outside='longer strings; splitting by regular expression (std::regex is out of reach); series file names (printf formats); locales other than C')
run('st_start', 'strings up to 4 bytes, prefixes up to 3', params=dict(n=4, m=3)); run('st_end', 'strings up to 4 bytes, suffixes up to 3', params=dict(n=4, m=3)); run('st_low', 'strings up to 4 bytes', params=dict(n=4)); run('st_ext', 'all 17 extensions in any case, stems up to 2 bytes'); run('st_noext', 'all strings of 3 bytes'); run('st_remove', 'strings up to 5 bytes', params=dict(n=5))

# re-exports the standard package and overrides what touches the clock
types="Time Duration Month Weekday Location ParseError".split()
consts="Nanosecond Microsecond Millisecond Second Minute Hour Layout ANSIC UnixDate RubyDate RFC822 RFC822Z RFC850 RFC1123 RFC1123Z RFC3339 RFC3339Nano Kitchen Stamp StampMilli StampMicro StampNano DateTime DateOnly TimeOnly January February March April May June July August September October November December Sunday Monday Tuesday Wednesday Thursday Friday Saturday".split()
funcs="Date Unix UnixMilli UnixMicro Parse ParseInLocation ParseDuration FixedZone LoadLocation LoadLocationFromTZData".split()
o='// Code generated by gen.py.\npackage time\n\nimport "time"\n\ntype (\n'
o+="".join(f"\t{t} = time.{t}\n" for t in types)+")\n\nconst (\n"
o+="".join(f"\t{t} = time.{t}\n" for t in consts)+")\n\nvar (\n\tUTC = time.UTC\n\tLocal = time.Local\n"
o+="".join(f"\t{t} = time.{t}\n" for t in funcs)+")\n"
open('reexport.go','w').write(o)

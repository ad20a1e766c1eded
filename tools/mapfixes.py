import json,subprocess
f='/verif/tools/fixes.json'
d=json.load(open(f))
out=subprocess.run(['git','-C','/repo','log','--format=%s'],capture_output=True,text=True).stdout.splitlines()
m=[("vectorised special",["C21"]),("clausen",["C21"]),("polar dilog",["C21"]),("log1mexp",["C21"]),
("ClaytonCopula constructor",["C07"]),("Clayton generators",["C19","C01"]),("Gumbel dependence function",["C19"]),("Gumbel dAdu",["C19"]),
("Frank ipsi",["C19","C01"]),("Frank dipsi",["C19"]),("Frank psi no",["C19"]),("Clayton pdf",["C02"]),("Gumbel pdf",["C02"]),("Frank pdf",["C02"]),
("Gumbel itau",["C18"]),("Gumbel upper",["C18"]),("Gaussian lambda_",["C18"]),("Student tail",["C18"]),("Frank dtau",["C18"]),("Frank itau",["C18"]),
("cast_input",["C04"]),("cdf and pdf accept",["C04"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)
m=[("Gaussian cdf is 0",["C01"]),("multivariate t log",["C27","C02"]),("Gaussian mixture log cdf",["C03","C25"]),("Frank pdf takes",["C04"]),("empirical pdf eval",["C04"]),("Gumbel pdf takes",["C04"]),("empirical distribution function takes",["C04"]),("copula with marginals trunc",["C04","C23"]),("a rejected edit",["C06"]),("elliptical copulas validate",["C06","C07"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("Student summary omitted",["C26"]),("merge_dict and merge_dicts",["C28","C08"]),("fitting no longer writes",["C08"]),("log likelihood in the fit summary",["C08"]),("summary of a fit by correlation",["C26"]),("fitting a DataFrame no longer",["C08"]),("Student fit with fixed",["C08"]),("trust-constr",["C08"]),("refitting on a plain",["C09","C10"]),("a rejected fit leaves a copula",["C09","C10"]),("drawing from a copula with marginals",["C10","C23"]),("a rejected mixture fit",["C09","C10","C24"]),("mixture parameters own",["C24"]),("mixture fit summary",["C25"]),("summaries of fits",["C26"]),("mixture copula summary",["C26"]),("correlation inversion fits",["C09"]),("a single draw from",["C10","C17"]),("seeded multivariate t",["C17","C27"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("correlation of two Series keeps",["C12"]),("correlation of two Series labels",["C12"]),("EmpiricalCopula.to_marg",["C13"]),("exchangeability and radial symmetry statistics",["C14","C15"]),("replicates of the exch",["C14","C15"]),("radial symmetry replicates rec",["C15"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("replicates of the goodness",["C16"]),("goodness of fit",["C16"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("Clayton draws",["C17"]),("Frank draws",["C17"]),("log series",["C17"]),("small positive stable",["C17"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("derivative of Gumbel's",["C18"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("Gumbel second derivatives",["C19"]),("Frank generator of single",["C19"]),("second derivative of the Frank",["C19"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("strict is_psd",["C22"]),("empty triangle",["C22"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("marginal specifications",["C23"]),("marginals are reported",["C23"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)
m=[("refuse Gaussian mixture covariances",["C24"]),("refuse Gaussian mixture vectors",["C24"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)
m=[("gradient descent for the mixture",["C25"]),("large log odds",["C25"]),("expectation maximisation without",["C25"]),("k-means of the mixture",["C25"]),("mixture quantiles",["C25"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[(x,["C27"]) for x in ("upper end of the stable","stable density","root finding accepts","stable tail density","the stable log density","precision of the stable","the mode of a stable","skewed stable draws","shifted multivariate t","univariate draws of the multivariate")]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)
m=[("log likelihood of a single",["C29"]),("density of a copula with marginals outside",["C23","C29"]),("summary of a fit by correlation",["C30"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("large log odds",["C24","C25"]),("cast_input also casts",["C18","C19","C04"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("log Gumbel polynomial of large",["C20"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

m=[("Gaussian and mixture cdf of a batch without rows",["C04"])]
for s in out:
    for p,i in m:
        if s.startswith("fix: "+p): d[s]=i
json.dump(d,open(f,'w'),indent=1)

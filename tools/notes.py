TECH = {
    "C01": "monitored executions of the filter classes against an 80-bit dense Gaussian oracle",
    "C02": "monitored density evaluations against an 80-bit dense Gaussian oracle",
    "C03": "monitored density evaluations on both sides of every prior bound",
    "C04": "monitored predictions against an 80-bit dense Gaussian oracle",
    "C05": "monitored simulations, draws whitened with the exact joint conditional covariance and tested",
    "C06": "monitored executions of permuted and duplicated data compared with each other and with the oracle",
    "C07": "event log of every sampler iteration, and returned draws re-evaluated",
    "C08": "every update of instrumented chains judged against the recomputed acceptance probability",
    "C09": "proposal factor read after every update and compared with the recursion",
    "C10": "event log of all tempered chains; exchanges judged one by one and by frequency",
    "C11": "monitored starting draws and first states of sampler runs",
    "C12": "monitored generator draws, distribution tests and state histories",
    "C13": "sample objects observed and re-derived by an independent decoder",
    "C14": "monitored spectra and bands re-derived independently",
    "C15": "linear map of the simulation recovered by replaying chosen variates",
    "C16": "monitored covariance evaluations against three independent references",
    "C17": "optimiser calls logged across processes, with injected failures",
    "C18": "order selection run on chosen and real fit outcomes, with injected failures",
    "C19": "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and memcheck over random and hostile call histories",
    "C20": "random histories of queries on several objects, answers compared with those of fresh objects",
    "C21": "monitored executions of shifted and scaled data compared with each other",
    "C22": "monitored decoding of parameter vectors against an independent decoder",
    "C23": "sample objects observed through every accessor, printed text and plotted curve",
    "C24": "draws of finished runs compared with quadrature and independent sampling of the density",
}
_all = ("Executions of the real code, chosen at random from VERIF_SEED among realistic, extreme and hostile inputs, observed from outside and through entry points "
        "compiled against its headers. Nothing is proved: inputs and histories not generated are not covered. ")
NOTE = {p: _all for p in TECH}
NOTE["C19"] += "Sanitizers see only what was executed; reads of uninitialised memory are looked for by memcheck on a smaller set of histories."
NOTE["C24"] += "Monte Carlo error limits what can be seen: biases below about a tenth of a posterior standard deviation pass."

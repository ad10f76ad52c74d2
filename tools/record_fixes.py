import subprocess,json
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s','a14c71b..HEAD'],text=True).splitlines()
rules=[('assume_centered','C27'),('MixValScorer gives','C33'),('the MaNoScorer scores networks in eval','C33'),('from cross-validation','C33'),('shared by threads','C33'),('outputs of a network are','C33'),('GradualEstimator have classes_','C33'),('contrastive discrepancy','C27'),('synthetic generators accept','C04'),('load_mnist_usps accepts','C32'),('scalar regression parameters','C04'),("estimator's requests",'C05'),('interrupted download','C32'),('digits are drawn','C32'),('labels that are names','C03'),('integer samples are','C31'),('selected by position','C31'),('derived from masked labels','C12'),('reads the column','C21'),('supervised and circular','C31'),('cloned right after it was trained','C28'),('accept float64','C27'),('GradualEstimator have a score','C12'),('can be cloned after their estimator','C09'),('can be cloned after reg','C09'),('subsamplers subsample','C24'),('SupervisedScorer','C21'),('well-conditioned','C15'),('GradualEstimator accepts','C19'),('reg=None set','C09'),('DiscriminatorReweight accepts','C13'),('ClassRegularizerOTMapping pipelines','C09'),('KLIEPReweightAdapter max','C13'),('TransferComponent','C15'),('TransferJoint','C15'),('SubspaceAlignment','C15'),('flda','C15'),('hinge cost','C16'),('JDOTRegressor.fit','C16'),('JDOTRegressor accepts allow','C12'),('JCPOT','C17'),('DASVM','C18'),('GradualEstimator.fit leaves','C07'),('GradualEstimator keeps','C19'),('PredictionEntropy','C21'),('DeepEmbedded','C21'),('CircularVal','C21'),('MaNoScorer','C21'),('subsamplers','C24'),('DomainClassifier','C29'),('MemoryBank','C29'),('CountEpochs','C29'),('ModifiedCross','C27'),('CDANModule','C28'),('check_generator','C29'),('deepjdot_loss','C27'),('cdd_loss','C27'),('sample weights of the loss','C28'),('DomainAwareNet.score','C28'),('DeepDADataset','C25'),('CAN and SPA','C07'),('SphericalKMeans','C29'),]
have=open('known_findings.jsonl').read()
out=open('known_findings.jsonl','a')
for l in log:
    h,s=l.split(' ',1)
    if h in have: continue
    p=[q for k,q in rules if k in s]
    if not p: print('??',l); continue
    s2=s.removeprefix('fix: ')
    out.write(json.dumps({"property":p[0],"id":"fixed-"+h,"status":"fixed","commit":h,"what":f"fixed: property={p[0]} {h} before: not the case that {s2}"})+"\n")

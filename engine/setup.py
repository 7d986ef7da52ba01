"""setup: build the driver, extract the current tree with the obligations and the model std once"""
import extract as X
X.driver()
p, i = X.extract(X.spec_modules())
print(i["mode"], len(p["bodies"]), "bodies")
X.extract()
X.extract_model()

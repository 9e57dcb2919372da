"""Source networks (scikit-learn, Keras) with chosen weights."""
import os, warnings, numpy
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3'); os.environ.setdefault('CUDA_VISIBLE_DEVICES', '')
def mlp(sizes, act, W, B, classifier=True):
    """a scikit-learn network with the given weights; sizes = [inputs, hidden.., outputs]"""
    from sklearn.neural_network import MLPClassifier, MLPRegressor
    r = numpy.random.RandomState(0)
    with warnings.catch_warnings(), numpy.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        if classifier:
            nc = max(2, sizes[-1]); X = r.rand(2 * nc, sizes[0]); y = list(range(nc)) * 2
            m = MLPClassifier(hidden_layer_sizes=sizes[1:-1], activation=act, max_iter=1).fit(X, y)
        else:
            X = r.rand(4, sizes[0]); y = r.rand(4, sizes[-1]) if sizes[-1] > 1 else r.rand(4)
            m = MLPRegressor(hidden_layer_sizes=sizes[1:-1], activation=act, max_iter=1).fit(X, y)
    order = 'F' if (sum(sizes) + sizes[0]) % 2 else 'C'     # however the numbers lie in memory
    m.coefs_ = [numpy.array(w, dtype=float, order=order) for w in W]; m.intercepts_ = [numpy.array(b, dtype=float) for b in B]
    return m
def keras_net(rng, sizes, acts, W, B):
    with numpy.errstate(all='ignore'):
        from tensorflow import keras
        L = [keras.layers.Input((sizes[0],))]; K = {'logistic': 'sigmoid', 'identity': 'linear'}
        for n, a in zip(sizes[1:], acts):
            how = rng.choice(['param', 'layer', 'special']) if a != 'identity' else rng.choice(['param', 'none', 'layer'])
            if how == 'param': L.append(keras.layers.Dense(n, activation=K.get(a, a)))
            else:
                L.append(keras.layers.Dense(n))
                if how == 'special' and a == 'relu': L.append(keras.layers.ReLU())
                elif how == 'special' and a == 'softmax': L.append(keras.layers.Softmax())
                elif how != 'none': L.append(keras.layers.Activation(K.get(a, a)))
            if rng.random() < .25: L.append(keras.layers.Dropout(0.5))
        m = keras.Sequential(L)
        m.set_weights([numpy.array(v, dtype='float32') for p in zip(W, B) for v in p])
    return m
class Stub:
    """stands in for the program that is compiled on conversion, where only the code is needed"""
    def __init__(self, *a, **k): pass
class no_compile:
    def __enter__(self):
        import emlearn.common as cm
        self.cm = cm; self.old = cm.CompiledClassifier; cm.CompiledClassifier = Stub
    def __exit__(self, *a): self.cm.CompiledClassifier = self.old

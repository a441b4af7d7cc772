from bugkit import bug
B='crates/aether_ml/src/classification/naive_bayes.rs'
bug('l01-one-pass-variance','L01',['aether_core+std','aether_ml+std'],
 [(B,'''                class_mean[label][i] += x[i];
            }
        }
''','''                class_mean[label][i] += x[i];
                class_var[label][i] += x[i] * x[i];
            }
        }
'''),(B,'''        // compute variance (MLE: divide by n)
        for (x, &label) in x_data.iter().zip(y.iter()) {
            for i in 0..N {
                let d = x[i] - class_mean[label][i];
                class_var[label][i] += d * d;
            }
        }
        for c in 0..num_classes {
            if class_count[c] > 0 {
                for i in 0..N {
                    class_var[c][i] /= class_count[c] as f64;
                }
            }
        }
''','''        // compute variance (MLE: divide by n)
        for c in 0..num_classes {
            if class_count[c] > 0 {
                for i in 0..N {
                    let mean_square = class_var[c][i] / class_count[c] as f64;
                    class_var[c][i] = (mean_square - class_mean[c][i] * class_mean[c][i]).max(0.0);
                }
            }
        }
''')],'''
use aether_core::math::Vector;
use aether_ml::classification::naive_bayes::GaussianNB;
fn main() {
    for shift in [0.0, 1e3, 1e8] {
        let xs: Vec<Vector<f64, 1>> = [0.0, 2.0, 4.0, 5.0, 5.5, 6.0].iter().map(|x| Vector::new([x + shift])).collect();
        let nb = GaussianNB::<1>::fit(&xs, &[0, 0, 0, 1, 1, 1], 2);
        assert!((nb.class_var[0][0] - 8.0 / 3.0).abs() < 1e-6, "{shift}: {}", nb.class_var[0][0]);
    }
}
''','features far from zero compared with their spread (times, positions in metres)','variances cancel, so classes look infinitely narrow or absurdly wide')
S='crates/aether_ml/src/classification/svm.rs'
bug('l01-svm-decays-bias','L01',['aether_core+std','aether_ml+std','aether_opt+std'],
 [(S,'''            for i in 0..N {
                grads[i] = grads[i] / m + pv[i] / c;
            }
            grads[N] = grads[N] / m;
''','''            for i in 0..M {
                grads[i] = grads[i] / m + pv[i] / c;
            }
''')],'''
use aether_core::math::Vector;
use aether_ml::classification::svm::LinearSvm;
use aether_opt::gradient_descent::GradientDescentGeneric;
fn main() {
    // all on the right side with room to spare: nothing pulls at the bias
    let xs = [Vector::new([10.0]), Vector::new([-10.0])];
    let mut s = LinearSvm::<f64, 1> { weights: Vector::new([1.0]), bias: 0.5, lr: 1.0, c: 2.0 };
    let mut o = GradientDescentGeneric::<f64, 2>::new();
    o.learning_rate(0.25).backtracking(false).max_iters(1);
    s.fit_with_optimizer(&xs, &[1, -1], o);
    assert!((s.weights[0] - 0.875).abs() < 1e-12, "{}", s.weights[0]);
    assert!((s.bias - 0.5).abs() < 1e-12, "{}", s.bias);
}
''','a fit that starts from, or reaches, a bias other than zero','the gradient is no longer that of the loss: the bias is pulled to zero')

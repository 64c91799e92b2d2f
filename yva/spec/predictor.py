"""What the losses of the step predictor are: squared error, summed over all batches, per sample."""


def per_sample(self, loader, net):
    total = 0.0
    count = 0
    for x, y in loader:
        d = y - net(self, x)
        total = total + (d * d).sum()
        count = count + y.shape[0]
    return total / count


def batch_mean(self, batch, net):
    x, y = batch
    d = y - net(self, x)
    return (d * d).mean()
